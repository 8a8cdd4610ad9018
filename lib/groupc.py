"""C14-C16, and the parts of C08 and C12 that live in modules.c: the linked-list groups"""
from graphc import LAB, odd_labels


def gnet(r, n, pe=None, unit='0.25', labs=None, wmax=6, E=None, uniform=False):
    L = labs or LAB[:n]
    if E is None:
        pe = r.choice([.2, .4, .6, .9]) if pe is None else pe
        E = [(i, j) for i in range(n) for j in range(i) if r.random() < pe]
    E = list(E); r.shuffle(E)
    w0 = r.randint(1, wmax)
    return 'net %s %d %s %s' % (unit, n, ' '.join(L), ' '.join('%s %s %d' % (L[i], L[j], w0 if uniform else r.randint(1, wmax)) for i, j in E)), E


def modular(r, n, k):
    """denser inside k blocks"""
    return [(i, j) for i in range(n) for j in range(i) if r.random() < (.8 if i % k == j % k else .12)]


def fill(r, L, labs, s=0, cover=1.0):
    """puts nodes in groups one by one"""
    P = list(L); r.shuffle(P)
    return ['add %d %d %s' % (s, r.choice(labs), x) for x in P if r.random() < cover]


MCI = ['CountsInv', 'Parts', 'Laws']
GV = dict(view='NoHist', constraint='Bound')


def gmc(ctx, gen=True):
    B = dict(NN=3, NG=2, GEN='FALSE', DEPTH=99, FAST='FALSE', TWO='FALSE', EVERY='TRUE')
    ctx.model_check('GroupsMC', B, invariants=MCI, **GV)
    ctx.model_check('GroupsMC', dict(B, NN=4, NG=3, EVERY='FALSE' if ctx.quick else 'TRUE'), invariants=MCI, **GV)
    ctx.model_check('GroupsMC', dict(B, FAST='TRUE', TWO='TRUE', EVERY='FALSE'), invariants=MCI, **GV)
    if not gen:
        return []
    G = dict(B, GEN='TRUE', DEPTH=99)
    g = ctx.generate('GroupsMC', dict(G, EVERY='FALSE'), action_constraint='Emit', **GV)
    g += ctx.generate('GroupsMC', dict(G, EVERY='FALSE', FAST='TRUE', TWO='TRUE', DEPTH=6 if ctx.quick else 9), action_constraint='Emit', **GV)
    if not ctx.quick:
        g += ctx.generate('GroupsMC', dict(G, NN=4, NG=3, EVERY='FALSE'), action_constraint='Emit', **GV)
    return g


def history(r, L, labs, n, fast=False):
    s = []
    for _ in range(n):
        x = r.random(); a, b, l = r.choice(labs), r.choice(labs), r.choice(L)
        f = 'f' if fast and r.random() < .4 else ''
        sl = 1 if r.random() < .15 else 0
        if x < .25: s.append('add%s %d %d %s' % (f, sl, a, l))
        elif x < .42: s.append('rm%s %d %d %s' % (f, sl, a, l))
        elif x < .68: s.append('move%s %d %d %s %d' % (f, sl, a, l, b))
        elif x < .76: s.append('merge%s %d %d %d' % (f, sl, a, b))
        elif x < .82: s.append('map %d' % sl)
        elif x < .86: s.append('copy %d' % sl)
        elif x < .89: s.append('pswap')
        elif x < .91: s.append('maps %d' % sl)
        elif x < .93: s.append('mapsub 0 ' + ' '.join(r.sample(L, r.randint(1, len(L)))))
        elif x < .95 and fast: s.append('mapf %d' % sl)
        elif x < .97: s.append('compress %d' % sl)
        else: s.append('query %d %d' % (sl, r.randint(1, 4)))
    return s


def c14(ctx):
    exe = ctx.build('hgroup.c')
    g = gmc(ctx)
    ctx.check_traces('GroupTrace', exe, [s + ['query 0 3', 'map 0', 'query 0 4'] for s in g[::1 if not ctx.quick else max(1, len(g) // 700)]], label='(generated)')
    r = ctx.rng
    S = []
    for k in range(110 if ctx.quick else 2000):
        n = r.randint(1, 9); L = odd_labels(r, n)
        u = r.choice(['0.25', '0.25', '1', '0.1', '0.3'])
        s = [gnet(r, n, unit=u, labs=L)[0]]
        labs = r.sample(range(8), r.randint(1, 4))
        s.append('part 0 ' + ' '.join(map(str, labs)))
        s += fill(r, L, labs, cover=r.choice([.5, 1]))
        fast = r.random() < .3
        s += history(r, L, labs, r.randint(5, 25), fast)
        s += ['query 0 2', 'map 0', 'query 0 %d' % r.randint(1, 6), 'write 0', 'copy 0', 'map 1', 'query 1 1', 'write 1']
        S.append(s)
    # whole partitions and networks cut out of them
    for k in range(110 if ctx.quick else 1800):
        n = r.randint(1, 10); L = odd_labels(r, n)
        s = [gnet(r, n, labs=L)[0]]
        labs = r.sample(range(8), r.randint(1, 4))
        if r.random() < .6: s += ['part 1 ' + ' '.join(map(str, labs))] + fill(r, L, labs, 1) + ['map 1']
        x = r.random()
        if x < .35: s.append('equi 0 %d' % r.randint(1, n + 1))
        elif x < .6: s.append('fromin 0')
        elif x < .75: s.append('clusters 0')
        else:
            P = list(L); r.shuffle(P); q = []
            while P: m = r.randint(1, len(P)); q.append(','.join(P[:m])); P = P[m:]
            s.append('lines 0 %d %s' % (r.randrange(2), ' '.join(q)))
        s += ['query 0 2', 'write 0']
        for a in range(5): s += ['sub 0 %d' % a, 'subneig 0 %d' % a]
        for l in r.sample(L, min(3, n)): s += ['move 0 %d %s %d' % (a, l, r.randint(0, 4)) for a in range(3)]
        s.append('mapsub 0 ' + ' '.join(r.sample(L, r.randint(1, n))))
        s += [r.choice(['rmbetween 0 0', 'rmbetween 0 1', 'rminter 0', 'rmwithin 0 %d' % r.randint(0, 3)]), 'map 0', 'query 0 1']
        S.append(s)
    for k in range(12):
        S.append(['equisoft %d %d' % (r.randint(1, 6), r.randint(1, 6))])
    S += [['bigblocks 9 4'], ['bigblocks 280 140'], ['bigblocks 330 %d' % r.randint(3, 200)]]
    ctx.check_traces('GroupTrace', exe, S, label='(random)')


def clusters(ctx):
    """C12: the partition into components"""
    exe = ctx.build('hgroup.c')
    r = ctx.rng
    S = []
    for k in range(80 if ctx.quick else 1500):
        n = r.randint(1, 14); L = odd_labels(r, n)
        s = [gnet(r, n, r.choice([.5 / n, 1. / n, 2. / n, .4]), labs=L)[0]]
        if r.random() < .4: s += ['part 1 0 1 2'] + fill(r, L, [0, 1, 2], 1)
        S.append(s + ['clusters 0', 'query 0 1'])
    ctx.check_traces('GroupTrace', exe, S, label='(partition into components)')


def c15(ctx):
    exe = ctx.build('hgroup.c')
    gmc(ctx, gen=False)
    r = ctx.rng
    S = []
    for k in range(70 if ctx.quick else 1500):
        n = r.randint(1, 14); L = odd_labels(r, n)
        kind = r.random()
        E = modular(r, n, r.randint(1, 4)) if kind < .5 else [] if kind < .58 else None
        s = [gnet(r, n, r.choice([.1, .3, .6, 1]), labs=L, E=E)[0]]
        if r.random() < .3: s += ['part 1 0 1 2'] + fill(r, L, [0, 1, 2], 1)
        for _ in range(2):
            ini = r.choice('oor'); ng = r.choice([0, 1, 2, 3, 4, 5])
            cold = r.random() < .3
            Ti = 1e-9 if cold else r.choice([2. / n, .5, .05])
            s.append('sa 0 %g %s %s %s %d %s %d %s %d' % (Ti, '1e-14' if cold else r.choice(['0.01', '0.001', '1e-5']), r.choice(['0.9', '0.7', '0.97']),
                     r.choice(['1', '0.5', '0.1']), ng, ini, r.randrange(2), r.choice('nvvvdbs'), r.randrange(10**6)))
            s += ['query 0 2']
        s.append('sa 0 0.1 0.2 0.9 1 3 o 1 n 5')
        S.append(s)
    # quick coolings that get stuck below the best seen, so that the search resumes from there
    for k in range(90 if ctx.quick else 1500):
        n = r.choice([8, 8, 11, 14]); L = odd_labels(r, n)
        s = [gnet(r, n, r.choice([.1, .2, .3]), labs=L, E=modular(r, n, r.randint(2, 4)) if r.random() < .5 else None)[0]]
        for _ in range(2):
            s.append('sa 0 %s 1e-7 0.9 0.03 0 %s %d v %d' % (r.choice(['0.02', '0.05', '0.2', '0.2']), r.choice('or'), r.randrange(2), r.randrange(10**6)))
        S.append(s)
    for k in range(120 if ctx.quick else 2000):
        n = r.randint(1, 12); L = odd_labels(r, n)
        s = [gnet(r, n, r.choice([.1, .3, .6]), labs=L, E=modular(r, n, 3) if r.random() < .4 else None)[0]]
        labs = list(range(r.randint(1, 3)))
        s += ['part 0 ' + ' '.join(map(str, labs))] + fill(r, L, labs)
        for a in labs:
            for cl in (0, 1, 1):
                s.append('split 0 %d %s %s 0.9 %d %d' % (a, r.choice(['0.5', '1']), r.choice(['0.01', '0.2', '0.5']), cl, r.randrange(10**6)))
        s.append('query 0 1')
        S.append(s)
    ctx.check_traces('GroupTrace', exe, S, timeout=120, label='(searches and splits)')
    # as many moves as asked for, in networks of any size
    S = [['effort %d %d %d %d %d %d' % (n, k, sw, ng, co, r.randrange(10**6))] for n, k, sw, ng, co in
         [(2 * r.randint(2, 10), r.randint(1500, 3000), r.randint(1, 3), r.choice([0, 2, 3, 5]), r.randrange(2)) for _ in range(5)] +
         [(2 * r.randint(2, 6), r.randint(0, 40), 15, r.choice([0, 2, 3]), r.randrange(2)) for _ in range(4)] + [(1000, 2000, 2, 10, 0), (46400, 60000, 1, 300, 0)]]
    ctx.check_traces('GroupTrace', exe, S, timeout=120, label='(moves)')
    # at a fixed temperature
    S = []
    for k in range(8 if ctx.quick else 60):
        n = r.choice([3, 4, 4, 5]); K = r.choice([2, 3, 3] if n < 5 else [2, 3]); L = odd_labels(r, n)
        while 1:
            s, E = gnet(r, n, r.choice([.4, .6, .9]), labs=L)
            if len(E) > 1: break
        T = r.choice([.1, .2, .4])
        S.append([s, 'sa 0 %g %.9f 0.9999999 %g %d r 0 v %d 1' % (T, T * .998, 60. / n / n, K, r.randrange(10**6))])
    ctx.check_traces('GroupTrace', exe, S, timeout=120, label='(fixed temperature)')


def c16(ctx):
    exe = ctx.build('hgroup.c')
    for n in ((3,) if ctx.quick else (3, 4)):
        ctx.model_check('CompareMC', {'NN': n}, invariants=['Sym', 'Bounded', 'One', 'Right', 'RightAll'])
    r = ctx.rng
    # every pair of partitions of three (four) nodes
    def parts(n):
        P = [[0]]
        for _ in range(n - 1): P = [p + [i] for p in P for i in range(max(p) + 2)]
        return P
    S = []
    for n in ((1, 2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5)):
        PP = parts(n)
        for a in PP:
            for b in PP:
                s = ['net 1 %d %s' % (n, ' '.join(LAB[:n]))]
                for sl, p in ((0, a), (1, b)):
                    lab = r.sample(range(n), max(p) + 1); s.append('part %d %s' % (sl, ' '.join(map(str, lab))))
                    s += ['add %d %d %s' % (sl, lab[p[i]], LAB[i]) for i in range(n)]
                S.append(s + ['cmp'])
    if ctx.quick and len(S) > 260: S = S[:40] + r.sample(S[40:], 220)
    ctx.check_traces('GroupTrace', exe, S, label='(all pairs of small partitions)')
    S = []
    for k in range(130 if ctx.quick else 2000):
        n = r.randint(2, 14); L = odd_labels(r, n)
        s = [gnet(r, n, .1, labs=L)[0]]
        labs = r.sample(range(n), r.randint(1, min(n, 5))); s += ['part 0 ' + ' '.join(map(str, labs))] + fill(r, L, labs)
        labs = r.sample(range(n), r.randint(1, min(n, 5)))
        if r.random() < .4:
            s += ['copy 0', 'map 1'] + ['move 1 %d %s %d' % (a, l, b) for l in r.sample(L, r.randint(0, 3) if n > 3 else 0) for a in range(n) for b in [r.randrange(n)]]
        else:
            s += ['part 1 ' + ' '.join(map(str, labs))] + fill(r, L, labs, 1)
        S.append(s + ['cmp', 'pswap', 'cmp', 'compress 0', 'cmp'])
    # groups in the order of a large search result; more nodes than the product of two sizes fits
    S.append(['big 50000 49000'])
    S.append(['big 1000 300'])
    ctx.check_traces('GroupTrace', exe, S, timeout=120, label='(random)')


def roles(ctx):
    """C08 for modules.c and bipartite.c"""
    exe = ctx.build('hgroup.c')
    r = ctx.rng
    S = []
    for k in range(120 if ctx.quick else 2000):
        n = r.randint(1, 14); L = odd_labels(r, n)
        u = r.choice(['0.25', '1', '0.1', '0.3', '0.7'])
        kind = r.random()
        E = None
        if kind < .2: E = [(i, (i + 1) % n) for i in range(n) if n > 2]
        elif kind < .4: E = modular(r, n, r.randint(1, 3))
        elif kind < .5 and n > 3: E = [(0, i) for i in range(1, n)]
        s = [gnet(r, n, unit=u, labs=L, E=E, uniform=r.random() < .5)[0]]
        labs = r.sample(range(8), r.randint(1, 4))
        if kind < .2: labs = labs[:1]
        s.append('part 0 ' + ' '.join(map(str, labs)))
        s += fill(r, L, labs) + ['roles 0', 'query 0 1']
        S.append(s)
    # a hub among many, to reach the roles of hubs
    for k in range(20 if ctx.quick else 300):
        n = 16; h = r.randint(8, 13)
        E = [(0, i) for i in range(1, h)] + [(0, i) for i in range(h, n) if r.random() < r.choice([.1, .5, 1])] + [(i, j) for i in range(h, n) for j in range(h, i) if r.random() < .5]
        s = [gnet(r, n, E=E, uniform=True)[0], 'part 0 0 1 2']
        s += ['add 0 %d %s' % (0 if i < h else r.choice([1, 2]), LAB[i]) for i in range(n)] + ['roles 0']
        S.append(s)
    for k in range(120 if ctx.quick else 2000):
        a, b = r.randint(1, 7), r.randint(1, 6)
        A, B = odd_labels(r, a), ['T%d' % i for i in range(b)]
        d = r.randrange(2)
        pe = r.choice([.3, .6])
        E = [(x, y, r.randint(1, 4)) for x in A for y in B if r.random() < pe]
        k = r.randint(1, a)
        grp = [r.randrange(k) for _ in A]
        S.append(['bnet %d %d %d %s %s' % (a, r.randrange(2), d, ' '.join('%s %d' % x for x in zip(A, grp)), ' '.join('%s %s %d' % e for e in E))])
    ctx.check_traces('GroupTrace', exe, S, label='(groups)')


CHECKS = {'C14': c14, 'C15': c15, 'C16': c16}
