"""C17, C18: missing.c, sparse_missing.c, multiblock.c, only_deg.c"""
LAB = ['n%d' % i for i in range(30)]
KINDS = ['mc', 'gibbs', 'sparse', 'and', 'or', 'od', 'gand', 'gor', 'god', 'k']


def net(r, n, p=None, K=None, s=0, labs=None, E=None):
    labs = labs or LAB[:n]
    if E is None: E = [(i, j) for i in range(n) for j in range(i) if r.random() < (r.choice([.2, .5, .8]) if p is None else p)]
    return 'net %d %d %s %s' % (s, n, ' '.join(labs), ' '.join('%s %s %d' % (labs[i], labs[j], r.randrange(K) if K else 1) for i, j in E)), E


def head(r, kind, lin=None, ab=None, K=2):
    if lin is None: lin = r.choice([0, 0, 500, -300, 1000])
    a, b = ab or (r.choice([250, 500, 1000, 1250]), r.choice([500, 750, 1000]))
    return '%s %d %d %d %d %d' % (kind, lin, a, b, K, r.randrange(10**6))


def tables(r):
    return 'tables %d %d %d' % (r.choice([500, 500, 4, 1]), r.choice([10000, 10000, 3, 1]), r.choice([10000, 10000, 4, 1]))


ALL = '{"mc","gibbs","sparse","and","or","od","gand","gor","god","k"}'
INV = ['Incremental', 'NamesFree', 'Predictive', 'Labelings', 'States']


def model(ctx, n, kinds='{"mc","sparse","and","or","od","k"}', lins='{0,700}', every='TRUE'):
    ctx.model_check('BlockModelMC', dict(NN=n, KINDS=kinds, LINS=lins, GEN='FALSE', EVERY=every), invariants=INV)


def c17(ctx):
    exe = ctx.build('hmissing.c')
    r = ctx.rng
    q = ctx.quick
    model(ctx, 3)
    S = ctx.generate('BlockModelMC', dict(NN=3, KINDS=ALL, LINS='{0,400}', GEN='TRUE', EVERY='FALSE' if q else 'TRUE'), action_constraint='Emit')
    if not q:
        model(ctx, 4, lins='{300}', every='FALSE')
        S += ctx.generate('BlockModelMC', dict(NN=4, KINDS=ALL, LINS='{500}', GEN='TRUE', EVERY='FALSE'), action_constraint='Emit')
    # one script for all groupings of a network
    T = {}
    for s in S: T.setdefault((s[0], s[1].split()[1]), [s[0]]).extend(s[1:])
    S = list(T.values())
    for k in range(200 if q else 4000):
        kind = KINDS[k % len(KINDS)]
        n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 9, 12, 15]); K = r.choice([1, 2, 3])
        s = [tables(r), net(r, n, K=K if kind == 'k' else None)[0]]
        for _ in range(2):
            a = [r.randrange(r.choice([1, 2, n]) if _ else n) for i in range(n)]
            if r.random() < .2: a = list(range(n))
            s.append('chain %s %d %d %s' % (head(r, kind, K=K), r.choice([4, 12]) if n < 10 else 4, r.choice([1, 1, 1, 3]), ' '.join(map(str, a))))
        S.append(s)
    ctx.check_traces('BlockTrace', exe, S, timeout=120, label='(chains)')


def density_ok(n, E): return 0 < len(E) < n * (n - 1) // 2


def c18(ctx):
    exe = ctx.build('hmissing.c')
    r = ctx.rng
    q = ctx.quick
    model(ctx, 3, kinds='{"mc","sparse","and","or","k"}', lins='{0}', every='FALSE')
    S = []
    for k in range(100 if q else 1500):
        kind = KINDS[k % len(KINDS)]
        n = r.choice([3, 3, 4, 4] if q else [3, 4, 5]); K = r.choice([2, 3])
        s = [net(r, n, K=K if kind == 'k' else None)[0]]
        s.append('hist %s %d 20 1 %s' % (head(r, kind, K=K), 40000 if q else 100000, ' '.join(str(r.randrange(n)) for i in range(n))))
        S.append(s)
    ctx.check_traces('BlockTrace', exe, S, timeout=300, label='(occupancies)')
    # the averages the library functions give
    S = []
    for k in range(70 if q else 700):
        kind = KINDS[k % len(KINDS)]
        while 1:
            n = r.choice([3, 4, 4, 5]); K = r.choice([2, 3])
            s, E = net(r, n, K=K if kind == 'k' else None)
            if kind != 'sparse' or density_ok(n, E): break
        s = [s]
        for it in (1, 1, 4000 if q else 20000):
            v = r.choice('qqvd')
            s.append('scorek %s %d %s %d' % (head(r, kind, K=K), it, v, r.choice([-1, 1, 2])) if kind == 'k' else
                     'score %s %d %s' % (head(r, kind), it, v))
        S.append(s)
    ctx.check_traces('BlockTrace', exe, S, timeout=300, label='(scores)')
    S = []
    for k in range(20 if q else 200):
        n = r.choice([3, 4]); s = [net(r, n)[0]]
        s.append('sample %s 4000 %d %s %s' % (head(r, 'mc'), r.choice([0, 50]), r.choice(['1', '1', '2', '0.5']), r.choice('qv')))
        S.append(s)
    for k in range(6 if q else 40):
        n = r.choice([3, 4]); s = [net(r, n)[0]]
        s += [c + ' ' + head(r, 'mc') for c in ('error', 'fromscores')]
        S.append(s)
    # networks that follow groups as no other network with their degrees does
    TT = [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5)]; KK = [(i, j) for i in range(3) for j in range(3, 6)]
    for E in [TT, KK] if q else [TT, KK] * 5:
        S.append([net(r, 6, labs=r.sample(LAB[:6], 6), E=E)[0], 'structure %s %d' % (head(r, 'mc'), r.randint(16, 24))])
    for k in range(20 if q else 150):
        n = r.choice([3, 4]); s = [net(r, n)[0], net(r, n, s=1)[0]]
        s += ['netscore %s %d %s' % (head(r, 'mc'), 4000, r.choice('qd'))]
        S.append(s)
    for k in range(10 if q else 100):
        n = r.choice([3, 4, 5]); s = [net(r, n)[0]]
        s.append('reconstruct ' + head(r, 'mc'))
        S.append(s)
    ctx.check_traces('BlockTrace', exe, S, timeout=300, label='(samples, errors, other networks)')


CHECKS = {'C17': c17, 'C18': c18}
