"""C32: every program refuses input it cannot read"""
import json, os, shutil, tempfile
import concurrent.futures as cf
import vlib
from progc import Programs, build, UTILS, SCORES

PROGS = {k: v for k, v in list(UTILS.items()) + list(SCORES.items()) if k != 'modularbipart'}
PROGS.update({'netlayout': 'utils/main_netlayout.c', 'multinetlayout': 'utils/main_multinetlayout.c',
              'netcarto': 'netcarto/main_netcarto.c', 'legacy': 'netcarto/main_netcarto_legacy.c'})
LONG = 'v' * 99
RING = [('v%d' % i, 'v%d' % ((i + 1) % 6)) for i in range(6)] + [('v0', 'v2')]
BIP = [('v%d' % i, 't%d' % j) for i in range(4) for j in range(3) if (i + j) % 3] + [(LONG, 't1')]
GROUPS = ['v0', 'v1', '///', 'v2', 'v3', LONG, '///']
# program -> its ways of being called: arguments and the files among them
N, W, Q, P = 'n', 'w', 'q', 'p'
CALLS = {'mutualinfo': [(['a', 'b'], 'pp')], 'bipartitemodularity': [(['a', 'b', '0'], 'bp')], 'bipartitemodularity_w': [(['a', 'b', '0'], 'wp')],
         'netcompare': [(['a', 'b'], 'nn')], 'netrandomize': [(['a', '3'], 'n')], 'multinetlayout': [(['a', 'b'], 'nn')],
         'netlayout': [(['a', '1', '-1', '3', '-1', m], 'n') for m in '23'],
         'netcarto': [(['-f', 'a', '-i', '.2', '-c', '.8'], 'n'), (['-f', 'a', '-w', '-i', '.2', '-c', '.8'], 'w'), (['-f', 'a', '-b', '-i', '.2', '-c', '.8', '-o', 'res'], 'b')],
         'legacy': [(['-f', 'a', '-s', '3', '-i', '.1', '-c', '.6'], 'n')],
         'conflict': [(['a', '2'], 'w')]}




def calls(p):
    if p in CALLS: return CALLS[p]
    if p in UTILS: return [(['a'], 'n')]
    if p == 'rec2': return [(['a', 'b', '3'], 'wq')]
    if p.startswith('rec'): return [(['2', 'a', 'b', '3'], 'wq')]
    if p == 'links_k': return [(['2', 'a', '3'], 'w')]
    return [(['a', '3'], 'n')]


SLOW = [p for p in SCORES] + ['legacy']
SHAPES = {'e': '', 's': '%s', 'L': LONG + ' %s', 'P': '%s ' + LONG, 'M': 'v' * 100 + ' %s', 'N': '%s ' + 'w' * 100, 'Q': '%s ' + 'w' * 400, 'R': 'v' * 1200 + ' ' + 'w' * 1200,
          'd': '%s v1', 'z': '%s v1 yes', 'x': '%s v1'}


def base(kind, bip):
    if kind == 'p': return list(GROUPS)
    if kind == 'q': return ['v0 t0', 'v1 t2', 'v3 t1']
    E = BIP if bip else RING
    return ['%s %s%s' % (a, b, ' %d' % (i % 2) if kind == 'w' else '') for i, (a, b) in enumerate(E)]


def content(kind, bip, shapes):
    """the ordinary file with lines of other shapes among its own"""
    B = base(kind, bip)
    if kind == 'p':
        if shapes == []: return B
        if len(shapes) == 1: return {'o': B[:-1], 'E': B, 'L': B + ['', ''], 'M': B[:-2] + ['v' * 100] + B[-2:], 'Q': ['w' * 400] + B, 'e': ['']}[shapes[0]]
        X = {'o': [], 'E': ['///'], 'L': [], 'M': ['v' * 100], 'Q': ['w' * 400], 'e': ['']}
        # first shape among the members, the last one at the end of the file
        return B[:1] + [w for s in shapes[:-1] for w in X[s]] + (B[1:] if shapes[-1] == 'E' else B[1:-1]) + ([] if shapes[-1] == 'E' else X[shapes[-1]])
    k = len(B) - 1
    at = [0, k // 2, k][:len(shapes)] if len(shapes) > 1 else [k]
    for x, s in sorted(zip(at, shapes), reverse=True):
        if s == 'o': continue
        ln = SHAPES[s]
        if '%s' in ln: ln = ln % ('t0' if s == 'L' and bip else 'v0')
        if kind == 'w' and s in 'LPMNQRx': ln += ' 1'
        if s == 'x': ln += ' abc'
        B.insert(x + 1, ln)
    return B


def words(ln):
    def num(w):
        try: float(w); return 1
        except ValueError: return 0
    return [[len(w), num(w), int(w == '///')] for w in ln.split()]


class Intake(Programs):
    """scripts: 'PROGRAM call file kind shapes...': the call's file number 'file' has these lines among
    its own, or is missing"""
    def script(self, s, again=False):
        if self.hung.is_set() and not again: return ['{"ev":"Reset"}']
        d = tempfile.mkdtemp(dir=self.ctx.tmp)
        try:
            ev = ['{"ev":"Reset"}']
            for c in s:
                p, call, which, kind, *sh = c.split(' ')
                for f in os.listdir(d): os.unlink(d + '/' + f)
                args, kinds = calls(p)[int(call)]
                files = []
                for i, k in enumerate(kinds):
                    bip = 'bipart' in p or k == 'b' or p in ('rec2', 'reck', 'reckg', 'conflict')
                    k = 'n' if k == 'b' else k
                    there = not (i == int(which) and sh == ['missing'])
                    L = content(k, bip, sh if i == int(which) else []) if there else []
                    if there: open(d + '/' + 'ab'[i], 'w').write(''.join(x + '\n' for x in L))
                    files.append({'kind': k, 'there': int(there), 'lines': [words(x) for x in L]})
                had = set(os.listdir(d))
                rc, out, err = self.go(d, p, args)
                if rc is None: ev.append(json.dumps({'ev': 'Crash', 'how': err})); break
                ev.append(json.dumps({'ev': 'Reads', 'prog': p, 'files': files, 'rc': rc, 'says': len((out + err).strip()),
                                      'made': len([f for f in set(os.listdir(d)) - had if f[0] != '.' and os.path.getsize(d + '/' + f)])}))
            return ev
        finally:
            shutil.rmtree(d, ignore_errors=True)


def good(kind, sh):
    return sh != ['missing'] and not set(sh) & set('esdzMNQR') if kind != 'p' else (sh[-1] == 'E' or sh == ['L']) and not set(sh) & set('MQ')


def c32(ctx):
    q, r = ctx.quick, ctx.rng
    inv = ['Decided', 'GivesUpAtTheFirst']
    ctx.model_check('IntakeMC', {'NN': 3, 'GEN': 'FALSE'}, invariants=inv)
    shapes = {k: [] for k in 'nwqp'}
    for s in ctx.generate('IntakeMC', {'NN': 2 if q else 3, 'GEN': 'TRUE'}, invariants=inv):
        t = s[0].split(' ')
        shapes[t[0]].append(t[1:] or ['missing'])
    X = Intake(ctx, build(ctx, PROGS), {})
    S = []
    for p in PROGS:
        for c, (args, kinds) in enumerate(calls(p)):
            for i, k in enumerate(kinds):
                k = 'n' if k == 'b' else k
                H = sorted(map(tuple, shapes[k]))
                one = [h for h in H if len(h) == 1]
                more = [h for h in H if len(h) > 1]
                bad = [h for h in more if not good(k, list(h))]; fine = [h for h in more if good(k, list(h))]
                H = one + r.sample(bad, min(len(bad), 8 if q else 200)) + r.sample(fine, min(len(fine), 2 if q else 20))
                if p in SLOW and q:
                    ok = [h for h in H if good(k, list(h))]
                    H = [h for h in H if h not in ok] + [r.choice(ok)]
                S += [['%s %d %d %s %s' % (p, c, i, k, ' '.join(h))] for h in H]
    r.shuffle(S)
    # many runs in a trace
    T = [[x for s in S[j:j + 6] for x in s] for j in range(0, len(S), 6)]
    X.check('IntakeTrace', T, '(programs)')


CHECKS = {'C32': c32}
