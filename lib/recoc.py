"""C19, C20: recommend.c, conflict.c"""
P = ['u%d' % i for i in range(30)]
M = ['m%d' % i for i in range(30)]
INV = ['Incremental', 'Sides', 'NamesFree', 'Predictive', 'TwoStates']


def model(ctx, n1, n2, K, every='FALSE'):
    ctx.model_check('RecommendMC', dict(N1=n1, N2=n2, KK=K, EVERY=every, GEN='FALSE'), invariants=INV)


def gen(ctx, n1, n2, K, every='FALSE'):
    return ctx.generate('RecommendMC', dict(N1=n1, N2=n2, KK=K, EVERY=every, GEN='TRUE'), action_constraint='Emit')


def obs(r, n1, n2, K, d=None):
    """ratings as the lines of a file, in any order; and the pairs"""
    d = r.choice([.1, .4, .7, 1]) if d is None else d
    L = [(i, j) for i in range(n1) for j in range(n2) if r.random() < d] or [(0, 0)]
    r.shuffle(L)
    return 'obs ' + ' '.join('%s %s %d' % (P[i], M[j], r.randrange(K)) for i, j in L), L


def ask(L):
    return 'queries ' + ' '.join('%s %s' % (P[i], M[j]) for i, j in L)


def grid(r, n1, n2):
    """a query about everything makes every node known"""
    L = [(i, j) for i in range(n1) for j in range(n2)]
    r.shuffle(L)
    return ask(L)


def kinds(k): return ['two', 'k', 'gibbs'][k % 3]


def tables(r):
    return 'tables %d %d %d' % (r.choice([500, 500, 4, 1]), r.choice([10000, 10000, 4, 1]), r.choice([5000, 5000, 3, 1]))


def c19(ctx):
    exe = ctx.build('hrecommend.c')
    r = ctx.rng
    q = ctx.quick
    model(ctx, 2, 2, 2, every='TRUE')
    model(ctx, 2, 2, 3)
    S = gen(ctx, 2, 2, 2, 'TRUE') + gen(ctx, 2, 3, 2)
    if not q:
        model(ctx, 3, 2, 2); model(ctx, 1, 4, 2); model(ctx, 2, 2, 4, every='TRUE')
        S += gen(ctx, 3, 2, 2, 'TRUE') + gen(ctx, 2, 2, 3, 'TRUE')
    T = {}
    for s in S: T.setdefault(s[0], s[:2]).extend(s[2:])
    S = list(T.values())
    if q: S = r.sample(S, min(len(S), 180))
    for k in range(150 if q else 3000):
        kind = kinds(k)
        n1 = r.choice([1, 2, 3, 4, 5, 6, 8, 12]); n2 = r.choice([2, 3, 4, 5, 7, 9]); K = 2 if kind == 'two' else r.choice([1, 2, 3, 5])
        if r.random() < .5: n1, n2 = n2, n1
        s = [tables(r), obs(r, n1, n2, K)[0], grid(r, n1, n2)]
        for _ in range(2):
            a = [r.randrange(min(n1, r.choice([1, 2, n1])) if _ else n1) for i in range(n1)] + [r.randrange(min(n2, r.choice([1, 2, n2])) if _ else n2) for i in range(n2)]
            if r.random() < .2: a = list(range(n1)) + list(range(n2))
            s.append('chain %s %d %d %d %d %s' % (kind, K, r.randrange(10**6), 4 if n1 + n2 > 12 else 10, r.choice([1, 1, 1, 3]), ' '.join(map(str, a))))
        S.append(s)
    ctx.check_traces('RecommendTrace', exe, S, timeout=120, label='(chains)')


def c20(ctx):
    exe = ctx.build('hrecommend.c')
    r = ctx.rng
    q = ctx.quick
    model(ctx, 2, 2, 2)
    # files, queries, unrated pairs
    S = []
    for k in range(200 if q else 3000):
        n1, n2 = r.choice([1, 2, 3, 5, 9]), r.choice([1, 2, 3, 5, 9]); K = r.choice([1, 2, 4])
        s = [obs(r, n1, n2, K)[0], 'unobserved']
        for _ in range(r.choice([1, 2])):
            s.append(ask([(r.randrange(n1 + 2), r.randrange(n2 + 2)) for i in range(r.choice([1, 3, 8]))]))
            if r.random() < .5: s.append('unobserved')
        s += r.choice([['askall'], ['rmratings %d' % r.randrange(K), 'unobserved'], ['rmratings 0', 'rmratings 1'], []])
        S.append(s)
    ctx.check_traces('RecommendTrace', exe, S, label='(ratings and queries)')
    # occupancies of groupings
    S = []
    for k in range(45 if q else 900):
        kind = kinds(k)
        n1, n2 = r.choice([(3, 2), (2, 3), (3, 3), (1, 3), (3, 1), (4, 2)] if q else [(3, 2), (2, 3), (3, 3), (1, 4), (4, 1), (4, 2), (2, 4), (4, 3)])
        K = 2 if kind == 'two' else r.choice([2, 3])
        s = [obs(r, n1, n2, K)[0], grid(r, n1, n2)]
        s.append('hist %s %d %d %d 20 1 %s' % (kind, K, r.randrange(10**6), 40000 if q else 100000, ' '.join(str(r.randrange(n)) for n in (n1, n2) for i in range(n))))
        S.append(s)
    ctx.check_traces('RecommendTrace', exe, S, timeout=300, label='(occupancies)')
    # predictions
    S = []
    for k in range(60 if q else 800):
        kind = kinds(k)
        n1, n2 = r.choice([(3, 2), (2, 3), (3, 3), (1, 3), (3, 1), (4, 2)])
        K = 2 if kind == 'two' else r.choice([2, 3])
        s, L = obs(r, n1, n2, K)
        s = [s, grid(r, n1, n2)]
        # what is asked: some of the rated pairs, some others, some twice, some unheard of
        for it in (1, 1, 3000 if q else 15000):
            qs = [r.choice(L) for i in range(r.choice([0, 1, 2]))] + [(r.randrange(n1), r.randrange(n2)) for i in range(r.choice([1, 2, 4]))]
            if r.random() < .2: qs += qs[:1]
            r.shuffle(qs)
            s += [ask(qs), 'score %s %d %d %d %s %d' % (kind, K, r.randrange(10**6), it, r.choice('qqvd'), r.choice([-1, 1, 2]))]
        S.append(s)
    for k in range(15 if q else 150):
        n1, n2 = r.choice([(3, 2), (2, 3), (3, 3), (1, 3), (3, 1)])
        S.append([obs(r, n1, n2, 2)[0], grid(r, n1, n2), 'all two 2 %d %d %s %d' % (r.randrange(10**6), r.choice([1, 3000]), r.choice('qvd'), r.choice([-1, 1, 2]))])
    # a prediction has to come for the smallest sets, too
    for n1, n2 in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for kind in ('two', 'k', 'gibbs'):
            for d in (0, 1):
                S.append([obs(r, n1, n2, 2, d)[0], grid(r, n1, n2), 'score %s 2 %d 1 q -1' % (kind, r.randrange(10**6))] + ['all two 2 1 1 q -1'] * (kind == 'two'))
    ctx.check_traces('RecommendTrace', exe, S, timeout=300, label='(predictions)')


CHECKS = {'C19': c19, 'C20': c20}
