"""C28: layout.c, netlayout, multinetlayout"""
import re
import progc


def mt(seed, n):
    """the draws of the generator that the programs use (gsl_rng_mt19937), in millionths"""
    s = [(seed & 0xffffffff) or 4357]
    for i in range(1, 624): s.append((1812433253 * (s[-1] ^ (s[-1] >> 30)) + i) & 0xffffffff)
    o = []
    while len(o) < n:
        for i in range(624):
            y = (s[i] & 0x80000000) | (s[(i + 1) % 624] & 0x7fffffff)
            s[i] = s[(i + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
        for y in s:
            y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680; y ^= (y << 15) & 0xefc60000; y ^= y >> 18
            o.append(round(y / 4294967296 * 1e6))
    return o[:n]


def places(out):
    R = progc.rows(out)
    return {'rows': [x[0] for x in R], 'pos': [[progc.fix(y) for y in x[1:]] for x in R]}


def e_netlayout(d, out, a):
    m = int(a[5])
    dim = 3 if m in (2, 3) else 2
    names = {x for l in open(d + '/' + a[0]) for x in l.split()[:2]}
    w = mt(int(a[1]), dim * len(names))
    e = places(out)
    e.update(method=m, dt=progc.fix(a[2] if a[2] != '-1' else '0.05'), steps=int(a[3]), drag=progc.fix(a[4] if a[4] != '-1' else '0.05'),
             init=[w[i:i + dim] for i in range(0, len(w), dim)])
    return e


LFN = {'netlayout': e_netlayout, 'multinetlayout': lambda d, out, a: places(out)}


def links(r, n, p=None):
    p = r.choice([0, .2, .5, .8]) if p is None else p
    E = [(i, j, r.choice([1, 1, 1, .25, .5, 2])) for i in range(n) for j in range(i) if r.random() < p]
    return '%d %s' % (len(E), ' '.join('%d %d %g' % e for e in E))


def connected(r, n):
    E = {(i, r.randrange(i)) for i in range(1, n)}
    E |= {(i, j) for i in range(n) for j in range(i) if r.random() < r.choice([0, .3])}
    return '%d %s' % (len(E), ' '.join('%d %d %g' % (i, j, r.choice([1, 1, .5, 2])) for i, j in E))


def points(r, n, dim, top=7):
    """different points of a grid of eighths, two of them opposite corners"""
    P = [(0,) * dim, (top,) * dim] if r.random() < .8 else []
    while len(P) < n:
        x = tuple(r.randrange(top + 1) for k in range(dim))
        if x not in P: P.append(x)
    P = P[:n]; r.shuffle(P)
    if any(len({p[k] for p in P}) == 1 for k in range(dim)): return points(r, n, dim, top)
    s, o = r.choice([.125, .125, .25, .5]), r.choice([0, -1, 2.5])
    return ' '.join(' '.join('%g' % (x * s + o) for x in p) for p in P)


def forces(r):
    dim, n = r.choice([2, 3]), r.choice([2, 3, 4, 5, 6, 8])
    return 'forces %d %d %d %s %s' % (dim, r.choice([1, 2, 3, 3, 4, 5, 6]), n, points(r, n, dim), links(r, n))


def move(r):
    n = r.choice([2, 3, 4, 5, 6, 7])
    m = r.choice([1, 1, 2, 3])
    k = r.random()
    if k < .2: drag, dt = r.choice([100, 400, 900]), r.choice([.5, 1])
    else: drag, dt = r.choice([0, .05, .5, 2]), r.choice([.02, .05, .1, .2])
    if drag * dt > 390: drag = 300
    return 'move %d %d %g %g %d %d %d %s' % (m, r.randrange(10**6), drag, dt, r.choice([0, 1, 1, 2, 3, 5, 8]), r.choice([0, 1, 1, 2, 3, 4]) or 1, n,
                                             connected(r, n) if r.random() < .8 else links(r, n, r.choice([.2, .4])))


def arrange(r):
    k = r.choice([1, 2, 2, 3, 3, 4, 6])
    C, n = [], 0
    for i in range(k):
        s = r.choice([1, 2, 3, 5]); C.append(list(range(n, n + s))); n += s
    o = list(range(n)); r.shuffle(o)
    E = [(o[c[i]], o[r.choice(c[:i])]) for c in C for i in range(1, len(c))]
    return 'arrange 2 %d %d %s %d %s' % (r.randrange(10**6), n, ' '.join('%.4f' % r.random() for i in range(2 * n)), len(E), ' '.join('%d %d 1' % e for e in E))


def other(r):
    k = r.randrange(3)
    if k == 0:
        dim, n = r.choice([2, 3]), r.choice([2, 3, 5, 9])
        s, o = r.choice([.01, 1, 1, 30]), r.choice([0, -5, 100])
        return 'norm %d 1 %d %s 0' % (dim, n, ' '.join('%.5f' % (r.random() * s + o) for i in range(dim * n)))
    if k == 1:
        n = r.choice([1, 2, 3, 5])
        return 'circles %d %d %.3f %.3f %s' % (n, r.randrange(n), r.random(), r.random(), ' '.join('%.3f %.3f %.3f' % (r.random() * 2, r.random() * 2, r.choice([0, .1, .5]) * r.random()) for i in range(n)))
    n = r.choice([1, 2, 4])
    return 'print %d %s' % (n, ' '.join('%s %.6f %.7g' % (r.choice(['a', 'node', '12', 'x' * 40]) + str(i), r.choice([0, 1, r.random(), r.random() * 300]), r.random()) for i in range(n)))


def c28(ctx):
    exe = ctx.build('hlayout.c')
    r, q = ctx.rng, ctx.quick
    inv = ['Still', 'FewBoxes', 'Neglect', 'Mirror', 'TwoNodes', 'Filled', 'InBoxes']
    for c in ((2, 2, 3, 6, 0), (3, 2, 2, 2, 0), (2, 3, 1, 4, 0), (2, 3, 1, 4, 1)) + (() if q else ((3, 2, 3, 4, 0), (3, 3, 1, 4, 1), (4, 2, 2, 3, 0))):
        ctx.model_check('LayoutMC', dict(NN=c[0], DIM=c[1], SIDE=c[2], STEPS=c[3], FLAT='FALSE' if not c[4] else 'TRUE', GEN='FALSE'), invariants=inv)
    S = []
    for c in ((2, 2, 3), (3, 2, 2), (3, 3, 1), (2, 3, 2)):
        G = ctx.generate('LayoutMC', dict(NN=c[0], DIM=c[1], SIDE=c[2], STEPS=0, FLAT='FALSE', GEN='TRUE'))
        S += r.sample(G, min(len(G), 200 if q else 2000))
    ctx.check_traces('LayoutTrace', exe, S, label='(states of the model)')
    X = progc.Programs(ctx, progc.build(ctx, {k: 'utils/main_%s.c' % k for k in LFN}), LFN)
    P = []
    for k in range(60 if q else 600):
        f, E = progc.netfile(r, 'a', r.choice([2, 3, 4, 5, 6, 8]), loops=False)
        s = [f] + ['netlayout a %d %s %d %s %d' % (r.choice([0, 1, r.randrange(10**6)]), r.choice(['-1', '.02', '.1']), r.choice([0, 1, 1, 2, 4, 200]), r.choice(['-1', '0', '.5', '3']), r.choice([1, 1, 2, 3])) for i in range(3)]
        if k % 4 == 0:
            s.append(progc.netfile(r, 'b', r.choice([2, 4]), loops=False)[0])
            if r.random() < .5: s.append(progc.netfile(r, 'c', r.choice([2, 3]), loops=False)[0])
            s.append('multinetlayout a b' + (' c' if len(s) == 6 else ''))
        P.append(s)
    P.append(['usage netlayout', 'usage netlayout a', 'usage netlayout a 1 -1 5 -1', 'usage multinetlayout', 'usage multinetlayout a'])
    X.check('LayoutTrace', P, '(programs)')
    S = [[f(r) for i in range(6)] for f in (forces, move, arrange, other) for k in range(120 if q else 1500)]
    ctx.check_traces('LayoutTrace', exe, S, label='(drawings)')


CHECKS = {'C28': c28}
