"""C30: netcarto-legacy"""
import hashlib
import os
import re
from progc import Programs, build, netfile, swappable, fix, num
from groupc import gmc

PROG = {'legacy': 'netcarto/main_netcarto_legacy.c'}


def slurp(d, f): return open(d + '/' + f, encoding='latin-1').read() if os.path.exists(d + '/' + f) else ''


def groups(text):
    R = []
    for x in text.split('\n'):
        if not x or x.startswith('#'): continue
        a, _, b = x.partition(' ---')
        c = a.split()
        if len(c) != 8: return [{'g': -1, 'c': [-1] * 4, 'w': [-1] * 3, 'm': ['?']}]
        R.append({'g': num(c[0]), 'c': [num(y) for y in c[1:5]], 'w': [fix(y) for y in c[5:]], 'm': b.split()})
    return R


def pajek(text):
    n, V, E, mode = -1, [], [], None
    for x in text.split('\n'):
        f = x.split()
        if not f: continue
        if f[0] == '*Vertices': n = num(f[1]); mode = V
        elif f[0] == '*Edges': mode = E
        elif f[0][0] == '*' or mode is None: return {'n': -1, 'v': [], 'l': []}
        elif mode is V: V.append([num(f[0]), ' '.join(f[1:]).strip('"')])
        else: E.append([num(f[0]), num(f[1])])
    return {'n': n, 'v': V, 'l': E}


def clu(text):
    f = text.split()
    return {'n': num(f[1]) if len(f) > 1 and f[0] == '*Vertices' else -1, 'v': [num(x) for x in f[2:]]}


def e_legacy(d, out, a):
    T = {f: slurp(d, f) for f in ('modules.dat', 'network.net', 'modules.clu', 'node_prop.dat', 'roles.dat', 'roles.clu', 'randomized_mod.dat')}
    for f in T:
        if os.path.exists(d + '/' + f): os.unlink(d + '/' + f)
    o = dict(zip([x[1] for x in a[::2] if x[0] == '-'], a[1::2])) if a and a[0][0] == '-' else \
        dict(zip('sficr', a)) if a and a[0].isdigit() else dict(zip([x[1] for x in a[1::2]], a[2::2]))
    q = re.findall(r'^# Modularity = (\S+)$', T['modules.dat'], re.M)
    rd = T['randomized_mod.dat'].split('\n')
    rd = rd[1].split() if len(rd) > 1 else []
    n = set(' '.join(open(d + '/a').read().split('\n')).split())
    ls = [x.split() for x in open(d + '/a').read().split('\n') if x.strip()]
    return {'ev': 'Legacy', 'key': ' '.join(o.get(k, v) for k, v in zip('sicr', ('1111', '1.0', '0.97', '0'))),
            'out': hashlib.sha1(repr(sorted(T.items())).encode()).hexdigest()[:16], 'rep': num(o.get('r', '0')),
            'pairs': len(ls) if len(n) == 2 * len(ls) and len(ls) <= 3 else 0,
            'mod': groups(T['modules.dat']), 'q': fix(q[0]) if len(q) == 1 else 2000000005, 'net': pajek(T['network.net']), 'clu': clu(T['modules.clu']),
            'prop': [[r[0], num(r[1]), fix(r[2]), fix(r[3])] if len(r) == 4 else ['?', -1, -1, -1] for r in (x.split() for x in T['node_prop.dat'].split('\n') if x)],
            'role': groups(T['roles.dat']), 'rclu': clu(T['roles.clu']), 'rand': ([fix(x) for x in rd] + [2000000005] * 3)[:3]}


def c30(ctx):
    X = Programs(ctx, build(ctx, PROG), {'legacy': e_legacy})
    r, q = ctx.rng, ctx.quick
    gmc(ctx, gen=False)
    S = []
    for k in range(80 if q else 900):
        if r.random() < .2:
            m = r.choice([2, 3, 3, 5, 6, 7, 9])
            f, E = 'file a sn ' + ' '.join('p%d,q%d' % (i, i) for i in range(m)), [('p%d' % i, 'q%d' % i) for i in range(m)]
        else:
            f, E = netfile(r, 'a', r.choice([2, 3, 5, 8, 12, 16]), loops=False)
        s = [f]
        for _ in range(2):
            seed = r.randint(1, 10**6); m = len(E) == len(set(sum(E, ()))) / 2; rep = r.choice([1, 2, 3, 5, 7, 9] if m else [0, 0, 1, 2, 2, 2, 3, 5]) if swappable(E) else 0
            c = r.choice(['0.5', '0.8', '0.9']); i = r.choice(['1.0', '0.1', '2.0'])
            s.append('legacy -f a -s %d -i %s -c %s -r %d' % (seed, i, c, rep))
            s.append(r.choice(['legacy -r {4} -c {3} -i {2} -s {1} -f a', 'legacy< {1} a {2} {3} {4}', 'legacy- a -s {1} -r {4} -i {2} -c {3}',
                               'legacy- a -s {1} -r {4} -i {2} -c {3} -f -']).format(0, seed, i, c, rep))
        if r.random() < .1: s += ['legacy -f a', 'legacy -f a -s 1111']
        S.append(s)
    X.check('LegacyTrace', S, '(runs)')


CHECKS = {'C30': c30}
