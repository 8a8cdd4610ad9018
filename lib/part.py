"""C01-C04: partitions, modularity, splits and annealing of netcarto"""
W = ['FreePartition']


def rand_net(r, n, m=None, wmax=3, multi=False, loops=False, pe=None, connected=False):
    pairs = [(i, j) for i in range(n) for j in range(i)]
    pe = r.choice([0.2, 0.35, 0.6, 0.9]) if pe is None else pe
    es = [p for p in pairs if r.random() < pe]
    if connected:
        es = list(set(es) | {(i, r.randrange(i)) for i in range(1, n)})
    if not es:
        es = [(1, 0)]
    r.shuffle(es)
    if multi:
        es += [r.choice(es) for _ in range(r.randrange(1, 3))]
    if loops:
        k = r.randrange(n); es.append((k, k))
    t = []
    for a, b in es:
        if r.random() < .5:
            a, b = b, a
        t.append('%d %d %d' % (a, b, r.randint(1, wmax)))
    return ' '.join(t)


def net_cmd(r, n, M=None, norm=1, unit=1, **kw):
    return 'net %d %d %d %s %d %s' % (n, M or n, norm, repr(unit), r.randrange(10**6), rand_net(r, n, **kw))


def any_net(r, nmin=2, nmax=9):
    n = r.randint(nmin, nmax)
    M = n if r.random() < .6 else r.randint(2, n)
    if r.random() < .15:
        M = n + r.randint(1, 3)
    norm = 1 if r.random() < .8 else 0
    unit = r.choice([1, 1, 0.5, 0.25, 0.1]) if norm else 0.1
    return n, M, net_cmd(r, n, M, norm, unit, wmax=r.choice([1, 3, 9]) if norm else 3, multi=r.random() < .15, loops=r.random() < .1)


def generated(ctx):
    ctx.model_check('PartitionMC', dict(NN=3, MM=3, WMAX=1 if ctx.quick else 2, SLOTS='{0,1}', GEN='FALSE', DEPTH=100),
                    invariants=['TypeOK', 'Bookkeeping', 'Predictions'], view='NoHist')
    if not ctx.quick:
        ctx.model_check('PartitionMC', dict(NN=4, MM=4, WMAX=1, SLOTS='{0}', GEN='FALSE', DEPTH=100),
                        invariants=['TypeOK', 'Bookkeeping', 'Predictions'], view='NoHist')
    return ctx.generate('PartitionMC', dict(NN=3, MM=3, WMAX=1, SLOTS='{0}', GEN='TRUE', DEPTH=8),
                        view='NoHist', action_constraint='Emit', constraint='Bound')


def c01(ctx):
    exe = ctx.build('hpart.c', W)
    g = generated(ctx)
    ctx.check_traces('PartitionTrace', exe, g, label='(generated)')
    r = ctx.rng
    scripts = []
    for k in range(150 if ctx.quick else 2500):
        n, M, net = any_net(r, 2, 10)
        s = [net]
        for _ in range(r.randint(5, 40)):
            x = r.random()
            slot = 1 if r.random() < .35 else 0
            if x < .45: s.append('move %d %d %d' % (slot, r.randrange(n), r.randrange(M)))
            elif x < .65: s.append('merge %d %d %d' % (slot, r.randrange(M), r.randrange(M)))
            elif x < .75: s.append('splitc %d %d %d %d' % (slot, r.randrange(M), r.randrange(M), r.randrange(10**6)))
            elif x < .82: s.append('splitsa %d %d %d 1.0 0.001 0.8 5 %d' % (slot, r.randrange(M), r.randrange(M), r.randrange(10**6)))
            elif x < .92: s.append('copy')
            elif x < .96: s.append('compress %d' % slot)
            else: s.append('drop')
        s.append('compress 0'); s.append('move 0 0 0')
        scripts.append(s)
    ctx.check_traces('PartitionTrace', exe, scripts, label='(random)')



def c02(ctx):
    exe = ctx.build('hpart.c', W)
    g = generated(ctx)
    # after every transition of the state graph: modularity and every prediction
    ctx.check_traces('PartitionTrace', exe, [s + ['q 0', 'dall 0'] for s in g[::1 if not ctx.quick else 3]], label='(generated)')
    r = ctx.rng
    scripts = []
    for k in range(160 if ctx.quick else 2500):
        n, M, net = any_net(r, 2, 9)
        s = [net, 'q 0', 'dall 0']
        for _ in range(r.randint(2, 6)):
            for _ in range(r.randint(1, n)):
                x = r.random()
                if x < .7: s.append('move 0 %d %d' % (r.randrange(n), r.randrange(M)))
                elif x < .9: s.append('merge 0 %d %d' % (r.randrange(M), r.randrange(M)))
                else: s.append('splitsa 0 %d %d 1.0 0.01 0.8 5 %d' % (r.randrange(M), r.randrange(M), r.randrange(10**6)))
            s += ['q 0', 'dall 0']
        # a prediction, the move itself, and the modularity around it
        for _ in range(3):
            i, m = r.randrange(n), r.randrange(M)
            s += ['q 0', 'dmove 0 %d %d' % (i, m), 'move 0 %d %d' % (i, m), 'q 0']
            i, m = r.randrange(M), r.randrange(M)
            s += ['dmerge 0 %d %d' % (i, m), 'merge 0 %d %d' % (i, m), 'q 0']
        s += ['compress 0', 'q 0', 'dall 0']
        scripts.append(s)
    ctx.check_traces('PartitionTrace', exe, scripts, label='(random)')
    big = []
    for k in range(4 if ctx.quick else 60):
        n = r.randint(15, 30)
        s = [net_cmd(r, n, n, wmax=3, pe=.25)]
        for _ in range(3):
            s += ['move 0 %d %d' % (r.randrange(n), r.randrange(n)) for _ in range(2 * n)] + ['q 0']
            s += ['dmove 0 %d %d' % (r.randrange(n), r.randrange(n)) for _ in range(4)]
            s += ['dmerge 0 %d %d' % (r.randrange(n), r.randrange(n)) for _ in range(4)]
        big.append(s)
    ctx.check_traces('PartitionTrace', exe, big, label='(large)')


def modular_net(r, n, out=0.3):
    """modules held together through a hub outside: star-like and ring-like shapes"""
    k = r.choice(['star', 'ring', 'tree', 'two', 'rand'])
    es = set()
    if k == 'star':
        for i in range(1, n): es.add((i, 0))
        for _ in range(n // 3):
            a, b = r.sample(range(n), 2); es.add((max(a, b), min(a, b)))
    elif k == 'ring':
        for i in range(n): es.add((max(i, (i + 1) % n), min(i, (i + 1) % n)))
    elif k == 'tree':
        for i in range(1, n): es.add((i, r.randrange(i)))
    elif k == 'two':
        h = n // 2
        for i in range(1, h): es.add((i, r.randrange(i)))
        for i in range(h + 1, n): es.add((i, r.randrange(h, i)))
        es.add((n - 1, 0))
    else:
        for i in range(n):
            for j in range(i):
                if r.random() < out: es.add((i, j))
        es.add((1, 0))
    es = [e for e in es if e[0] != e[1]]
    r.shuffle(es)
    return ' '.join('%d %d %d' % (a, b, r.randint(1, 3)) for a, b in es)


def c03(ctx):
    exe = ctx.build('hpart.c', W)
    g = generated(ctx)
    gs = [s for s in g if s[-1].startswith('split')]
    # every split of the state graph, with several seeds
    more = []
    for s in gs:
        for k in range(2):
            more.append(s[:-1] + [s[-1] + str(k), 'q 0'])
    ctx.check_traces('PartitionTrace', exe, more, label='(generated)')
    r = ctx.rng
    scripts = []
    for k in range(200 if ctx.quick else 4000):
        n = r.randint(4, 14); M = n
        s = ['net %d %d 1 1 %d %s' % (n, M, r.randrange(10**6), modular_net(r, n, r.choice([.1, .2, .4])))]
        for _ in range(r.randint(2, 4)):
            q = r.choice([2, 3])
            for i in range(n): s.append('move 0 %d %d' % (i, r.randrange(q)))
            for _ in range(3):
                t, e = r.randrange(q), q + r.randrange(M - q) if M > q else 0
                if r.random() < .65: s.append('splitc 0 %d %d %d' % (t, e, r.randrange(10**6)))
                else:
                    s.append('splitsa 0 %d %d %s %s %s %d %d' % (t, e, r.choice(['1', '0.1', '0.01']), r.choice(['0.001', '0.00001']),
                             r.choice(['0.95', '0.7']), r.choice([1, 5, 25]), r.randrange(10**6)))
            s.append('q 0')
        scripts.append(s)
    ctx.check_traces('PartitionTrace', exe, scripts, label='(random)')


def c04(ctx):
    exe = ctx.build('hpart.c', W)
    ctx.model_check('AnnealMC', dict(NN=3, WMAX=2) if ctx.quick else dict(NN=4, WMAX=1), invariants=['NotWorse', 'ColdNeverBelow', 'ColdLocalOptimum'])
    r = ctx.rng
    scripts = []
    # whole searches with ordinary schedules
    for k in range(60 if ctx.quick else 1000):
        n = r.randint(2, 10); M = n if r.random() < .8 else r.randint(2, n)
        s = [net_cmd(r, n, M, wmax=r.choice([1, 3, 9]))]
        for _ in range(r.randint(0, n)): s.append('move 0 %d %d' % (r.randrange(n), r.randrange(M)))
        for _ in range(3):
            s.append('sa 0 %s %s %s %s %s %d %d 0 0' % (r.choice(['0.01', '1']), r.choice(['1', '0.25', '0.05', repr(1.0 / n)]),
                     r.choice(['0.01', '0.001', '0.04', '0.2']), r.choice(['0.9', '0.7', '0.99']), r.choice(['0', '0.5', '1']),
                     r.choice([1, 3, 25]), r.randrange(10**6)))
        scripts.append(s)
    # degenerate sizes and schedules
    for s in (['net 2 2 1 1 1 0 1 1'], ['net 2 2 1 1 1 0 0 1 0 1 2'], ['net 1 1 1 1 1 0 0 1'], ['net 3 1 1 1 1 0 1 1 1 2 1'],
              ['net 3 2 1 1 5 0 1 1 1 2 1'], ['net 4 4 1 1 5 0 1 1']):
        scripts.append(s + ['sa 0 1 1 0.1 0.9 0.5 25 3 0 0', 'sa 0 1 0.0000001 0.00000001 0.9 0.5 3 3 0 0', 'sa 0 1 0.1 0.2 0.9 0.5 3 3 0 0'])
    # the Metropolis rule, draw by draw, at a constant temperature 1/K
    for k in range(60 if ctx.quick else 800):
        n = r.randint(3, 9)
        K = r.choice([5, 10, 20, 40, 80])
        T = 1.0 / K
        s = [net_cmd(r, n, n, wmax=3)]
        for _ in range(3):
            nmov = 10 if n * n * .01 < 10 else 0
            s.append('sa 0 0.01 %r %r 0.5 0.5 5 %d %d 20' % (T, T * .999, r.randrange(10**6), K))
        for _ in range(2):
            s.append('sa 0 2 %r %r 0.5 0.5 5 %d %d %d' % (T, T * .999, r.randrange(10**6), K, 2 * 2 * n * n))
        scripts.append(s)
    # vanishing temperature: never below the start
    for k in range(60 if ctx.quick else 1000):
        n = r.randint(2, 9)
        s = [net_cmd(r, n, n, wmax=r.choice([1, 9]))]
        for _ in range(n): s.append('move 0 %d %d' % (r.randrange(n), r.randrange(max(1, n // 2))))
        for _ in range(4):
            s.append('sa 0 %s 0.00000001 0.000000001 %s 0.5 %d %d 0 0' % (r.choice(['0.01', '1']), r.choice(['0.2', '0.8']), r.choice([2, 10]), r.randrange(10**6)))
        scripts.append(s)
    # ... and ends in a local optimum (irregular weights: no plateaus), cold all along or cooled down
    for k in range(30 if ctx.quick else 500):
        n = r.randint(3, 8)
        s = [net_cmd(r, n, n, wmax=97)]
        s.append('sa 0 4 1 0.00000001 0.5 0.5 999 %d 0 0' % r.randrange(10**6))
        for j in range(3):
            s.append('sa 0 4 0.00000001 0.000000001 0.8 0.5 999 %d 0 0 %d' % (r.randrange(10**6), j == 2))
        scripts.append(s)
    for k in range(40 if ctx.quick else 600):
        n = r.randint(8, 13)
        s = [net_cmd(r, n, n, wmax=97, pe=.4)]
        s.append('sa 0 4 0.3 0.00000000001 0.7 0.5 8 %d 0 0 1' % r.randrange(10**6))
        scripts.append(s)
    # the rule in the second round of a schedule, at temperature 1/K
    for k in range(40 if ctx.quick else 600):
        n = r.randint(4, 9)
        K = r.choice([10, 20, 50, 100])
        s = [net_cmd(r, n, n, wmax=3)]
        for _ in range(2):
            s.append('sa 0 1 1 %r %r 0.5 99 %d %d %d 2' % (.999 / K, 1. / K, r.randrange(10**6), K, 2 * n * n))
        scripts.append(s)
    # a poor round leads back to the best partition
    for k in range(200 if ctx.quick else 2000):
        n = r.randint(10, 18)
        s = [net_cmd(r, n, n, wmax=9, pe=r.choice([.2, .3, .4]))]
        for j in range(2): s.append('sa 0 0.01 %s 0.00000001 %s 0.5 %d %d 0 0' % (r.choice(['0.3', '0.1', '0.03']), r.choice(['0.9', '0.95', '0.8']), r.choice([2, 2, 3, 4]), r.randrange(10**6)))
        scripts.append(s)
    # as many moves as asked for, in networks of any size
    scripts += [['effort %d %d %d %d' % (n, k, sw, r.randrange(10**6))] for n, k, sw in
                [(r.randint(4, 20), r.randint(1500, 3000), r.randint(1, 3)) for _ in range(4)] + [(r.randint(6, 12), r.randint(0, 40), 60) for _ in range(3)] +
                [(r.randint(100, 900), 2000, 2), (65536, 3000, 1), (65540, 3000, 2)]]
    ctx.check_traces('PartitionTrace', exe, scripts)


LABCH = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+.:;/()[]{}<>=*&^%$#@!?|'


def rand_labels(r, n):
    out = set()
    style = r.choice(['num', 'short', 'long', 'mixed', 'prefix', 'same'])
    while len(out) < n:
        if style == 'num': x = str(r.randrange(10 ** r.choice([1, 3, 6])))
        elif style == 'short': x = ''.join(r.choice(LABCH) for _ in range(r.randint(1, 2)))
        elif style == 'long': x = ''.join(r.choice(LABCH) for _ in range(r.randint(60, 98)))
        elif style == 'same': x = 'q' * 93 + str(r.randrange(10 ** 5))
        elif style == 'prefix': x = 'node' + 'a' * r.randint(0, 6) + str(r.randrange(60))
        else: x = ''.join(r.choice(LABCH) for _ in range(r.randint(1, 20)))
        if x != '.': out.add(x)
    out = list(out); r.shuffle(out)
    return out


def edge_lines(r, n1, n2, E, bip, weighted):
    A = rand_labels(r, n1)
    B = (rand_labels(r, n2) if r.random() < .5 else r.sample(A, min(n2, n1)) + rand_labels(r, max(0, n2 - n1))) if bip else A
    L = []
    for k in range(E):
        a, b = (A[k % n1] if k < n1 and r.random() < .9 else r.choice(A)), r.choice(B)
        if bip == 2: a, b = b, a
        w = r.choice(['1', '2', '0.5', '3.25', '10', '1e-2', '7.125', '100', '1.5e1'])
        L.append('%s,%s,%s' % (a, b, w) if weighted or r.random() < .1 else '%s,%s' % (a, b))
    return L


def c06(ctx):
    exe = ctx.build('hpart.c', W)
    ctx.model_check('EdgeListMC', dict(LABELS='{"a", "b", "c"}' if ctx.quick else '{"a", "b", "c", "d"}', MAXLINES=4, GEN='FALSE'), invariants=['Inv'])
    g = ctx.generate('EdgeListMC', dict(LABELS='{"a", "b", "c"}', MAXLINES=3, GEN='TRUE'), invariants=['Inv'], action_constraint='Emit')
    ctx.check_traces('EdgeListTrace', exe, g, label='(generated)')
    r = ctx.rng
    S = []
    # sizes around the growth limits of the arrays (10, 20, 40 ... labels; 100, 200 ... edges)
    Ns = [1, 2, 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 20, 21, 36, 37, 38, 39, 40, 41, 77, 78, 79, 80]
    for N in Ns + ([156, 157, 158, 159, 160, 316, 318, 320] if not ctx.quick else [158]):
        for bip in (0, 1, 2):
            w = r.randrange(2)
            S.append(['readel %d %d %d %s' % (w, bip, r.randrange(8), ' '.join(edge_lines(r, N, r.randint(1, 20), N + r.randint(0, 5), bip, w)))])
    for E in [1, 2, 97, 98, 99, 100, 101, 102, 197, 198, 199, 200, 201, 202] + ([398, 399, 400, 401, 799, 800, 1600] if not ctx.quick else [399]):
        for bip in (0, 1, 2):
            w = r.randrange(2)
            S.append(['readel %d %d %d %s' % (w, bip, r.randrange(8), ' '.join(edge_lines(r, r.randint(2, 40), r.randint(1, 20), E, bip, w)))])
    for k in range(100 if ctx.quick else 2000):
        bip, w = r.randrange(3), r.randrange(2)
        L = edge_lines(r, r.randint(1, 30), r.randint(1, 10), r.randint(1, 60), bip, w)
        if r.random() < .2:     # a line with missing fields
            k2 = r.randrange(len(L)); f = L[k2].split(',')
            L[k2] = r.choice([f[0], '.', ','.join(f[:2]) if w else f[0]])
        S.append(['readel %d %d %d %s' % (w, bip, r.randrange(8), ' '.join(L))])
    ctx.check_traces('EdgeListTrace', exe, S, label='(random)')
    # edge list -> adjacency array
    S = []
    for k in range(150 if ctx.quick else 3000):
        n = r.randint(1, 14)
        norm = r.randrange(2)
        S.append([net_cmd(r, max(n, 2), max(n, 2), norm, r.choice([1, .5, .1]) if norm else .1, wmax=r.choice([1, 4, 9]), multi=r.random() < .3, loops=r.random() < .3)])
    for k in range(6 if ctx.quick else 40):
        n = r.randint(30, 60)
        S.append([net_cmd(r, n, n, 1, 1, wmax=2, pe=.1)])
    ctx.check_traces('PartitionTrace', exe, S, label='(adjacency)')


def bip_links(r, n, t, wmax=3, p=None):
    p = p or r.choice([.2, .4, .7, 1])
    L = [(i, x) for i in range(n) for x in range(t) if r.random() < p]
    for i in range(n):                      # every node exists
        if not any(a == i for a, _ in L): L.append((i, r.randrange(t)))
    L = [(a, b, r.randint(1, wmax)) for a, b in L]
    r.shuffle(L)
    return L


def bip_cmd(r, L, unit=1, perm=None):
    return 'bip %r %s' % (unit, ' '.join('%d %d %d' % x for x in L))


def c07(ctx):
    exe = ctx.build('hpart.c', W)
    ctx.model_check('BipMC', dict(NN=3, TT=3 if ctx.quick else 4, WMAX=1 if ctx.quick else 2, GEN='FALSE'), invariants=['Inv'])
    g = ctx.generate('BipMC', dict(NN=3, TT=2, WMAX=2, GEN='TRUE'), invariants=['Inv'], action_constraint='Emit')
    ctx.check_traces('PartitionTrace', exe, [s + ['q 0'] for s in g], label='(generated)')
    r = ctx.rng
    S = []
    for k in range(150 if ctx.quick else 3000):
        n, t = r.randint(1, 9), r.randint(1, 7)
        L = bip_links(r, n, t, wmax=r.choice([1, 1, 3, 5]))
        ids = r.sample(range(40), t)
        L = [(a, ids[b], w) for a, b, w in L]
        unit = r.choice([1, .5, .1])
        s = []
        for j in range(3):                 # the order of the links does not matter
            r.shuffle(L); s.append(bip_cmd(r, L, unit))
        n = max(a for a, _, _ in L) + 1
        s.append('q 0')
        for j in range(r.randint(0, 6)): s.append('move 0 %d %d' % (r.randrange(n), r.randrange(n)))
        s += ['q 0', 'dall 0', 'sa 0 1 0.5 0.001 0.8 0.5 3 %d 0 0' % r.randrange(10**6), 'q 0']
        S.append(s)
    ctx.check_traces('PartitionTrace', exe, S, label='(random)')
    import graphc
    graphc.projections(ctx)


def c08_new(ctx):
    exe = ctx.build('hpart.c', W)
    g = ctx.generate('PartitionMC', dict(NN=4, MM=4, WMAX=1, SLOTS='{0}', GEN='TRUE', DEPTH=4 if ctx.quick else 8),
                     view='NoHist', action_constraint='Emit', constraint='Bound')
    seen, G = set(), []
    for s in g:
        k = s[-1].split()[0]
        if k in ('move', 'merge'): G.append(s + ['compress 0', 'roles 0'])
    ctx.check_traces('PartitionTrace', exe, G[::7 if ctx.quick else 1], label='(generated)')
    r = ctx.rng
    S = []
    # the cells of the role table and their borders
    P = [0, .049999, .05, .050001, .299999, .3, .300001, .5, .619999, .62, .620001, .749999, .75, .750001, .799999, .8, .800001, .9, 1]
    Z = [-3, 0, 2.499999, 2.5, 2.500001, 10]
    S.append(['role %r %r' % (a, b) for a in P for b in Z])
    for k in range(120 if ctx.quick else 3000):
        n = r.randint(2, 12)
        if r.random() < .25:
            s = [bip_cmd(r, bip_links(r, n, r.randint(1, 6), r.choice([1, 3])))]
        else:
            s = ['net %d %d %d %r %d %s' % (n, n, 1, r.choice([1, .5, .1]), 1, rand_net(r, n, wmax=r.choice([1, 1, 3, 9]), multi=r.random() < .1))]
        for _ in range(3):
            q = r.randint(1, min(n, 4))
            s += ['move 0 %d %d' % (i, r.randrange(q)) for i in range(n)]
        s += ['compress 0', 'roles 0']
        S.append(s)
    for k in range(30 if ctx.quick else 300):       # hubs: modules around a star, and regular modules
        c, m = r.randint(2, 3), r.randint(3, 11)
        n, e = c * m, []
        reg = r.random() < .5
        for q in range(c):
            for i in range(1, m):
                e.append((q * m + i, q * m))
            if reg: e += [(q * m + i, q * m + j) for i in range(2, m) for j in range(1, i)]
        for _ in range(r.randint(0, 2 * n)):
            a, b = r.sample(range(n), 2)
            if a // m != b // m and (a, b) not in e and (b, a) not in e: e.append((a, b))
        w = r.choice([1, 3])
        s = ['net %d %d 1 1 1 %s' % (n, n, ' '.join('%d %d %d' % (a, b, w) for a, b in e))]
        s += ['move 0 %d %d' % (i, i // m) for i in range(n)] + ['compress 0', 'roles 0']
        S.append(s)
    ctx.check_traces('PartitionTrace', exe, S, label='(random)')


CHECKS = {'C06': c06, 'C08': c08_new, 'C07': c07, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04}
