"""C24: models.c, the modular bipartite networks of bipartite.c"""
INV = ['Result', 'Whole', 'Grown', 'Expected']
ALL = '{"empty","er","pa","block","gn","bip"}'


def pr(r): return r.choice(['0', '1', '0.5', '%.3f' % r.random(), '%.3f' % r.random()])


def command(r, big):
    kind = r.choice(['empty', 'er', 'er', 'pa', 'pa', 'block', 'block', 'gn', 'bip', 'bip'])
    if kind == 'empty': return 'empty %d' % r.choice([0, 1, 2, big])
    if kind == 'er': return 'er %d %s' % (r.randrange(big), pr(r))
    if kind == 'pa':
        n = r.randrange(1, big); return 'pa %d %d' % (n, r.randrange(0, min(n, r.choice([2, 3, 5, 12])) + 1))
    sz = [r.randrange(1 + big // 3) for i in range(r.choice([1, 2, 3, 4]))]
    if kind == 'block':
        k = len(sz); return 'block %s %d %s %s' % (r.choice('qv'), k, ' '.join(map(str, sz)), ' '.join(pr(r) for i in range(k * (k + 1) // 2)))
    if kind == 'gn':
        ng, gs = r.choice([1, 2, 3, 4]), r.randrange(1, 2 + big // 4)
        return 'gn %s %d %d %.3f %.3f' % (r.choice('qv'), ng, gs, r.choice([0, gs - 1, gs, r.random() * gs]), r.choice([0, gs * (ng - 1), r.random() * gs]))
    if sum(sz) == 0: sz[0] = 1
    same = r.random() < .4
    if same: sz = [max(sz)] * len(sz)
    n = sum(sz); a, b = sorted([r.randrange(n + 1), r.randrange(n + 1)])
    col = []
    if r.random() < .5:
        w = [r.choice([0, 1, 3]) for _ in sz]
        if sum(w) == 0: w[-1] = 1
        col = ['%.6f' % (x / sum(w)) for x in w]
        col[-1] = '%.6f' % (float(col[-1]) + (2e-6 if w[-1] else 0))    # the sum must not stay below one
        if not w[-1]: col = []
    return 'bip %s %d %s %d %s %d %d %d -1' % (pr(r), len(sz), '%d' % sz[0] if same else '-1 ' + ' '.join(map(str, sz)), len(col), ' '.join(col), r.choice([0, 1, 3, big]), a, r.choice([a, b, b]))


def small(r):
    """parameters whose outcomes can all be listed"""
    k = r.randrange(5)
    if k == 0: return 'er %d %.3f' % (r.choice([2, 3]), r.random())
    if k == 1: return r.choice(['pa 4 1', 'pa 4 2', 'pa 5 1', 'pa 5 2', 'pa 4 3', 'pa 3 1', 'pa 5 3'])
    if k == 2: return r.choice(['block q 2 1 2 %s %s %s', 'block q 2 2 1 %s %s %s', 'block q 2 2 2 %s %s %s', 'block q 2 3 0 %s %s %s']) % (pr(r), pr(r), pr(r))
    if k == 3: return r.choice(['gn q 2 2 %.3f %.3f', 'gn q 1 3 %.3f %.3f', 'gn q 3 1 %.3f %.3f']) % (r.random() * 1.2, r.random() * 2)
    a = r.choice(['1 1', '2 2', '1 2', '3 3', '0 2'])
    c = r.choice(['0', '0', '2 0.250000 0.750000'])
    s = r.choice(['2 -1 1 2', '2 -1 3 1', '2 2', '2 -1 0 3'])
    return 'bip %.3f %s %s 1 %s -1' % (r.choice([0, 1, r.random(), r.random()]), s, c, a)


def c24(ctx):
    exe = ctx.build('hmodels.c')
    r = ctx.rng
    q = ctx.quick
    ctx.model_check('ModelsMC', dict(NN=3 if q else 4, KINDS=ALL, GEN='FALSE'), invariants=INV)
    S = ctx.generate('ModelsMC', dict(NN=3, KINDS=ALL, GEN='TRUE'), action_constraint='Emit')
    if q: S = r.sample(S, min(len(S), 120))
    ctx.check_traces('ModelsTrace', exe, S, label='(parameters of the model)')
    S = [['gen %d %s' % (r.randrange(10**6), command(r, b)) for i in range(4)] for b in (6, 15, 40) for k in range(60 if q else 700)]
    ctx.check_traces('ModelsTrace', exe, S, label='(networks)')
    S = [['hist %d %d %s' % (r.randrange(10**6), 20000 if q else 100000, small(r))] for k in range(80 if q else 800)]
    S += [['sizes %d bip %.3f 3 20 0 %d -1 -1 %.3f' % (r.randrange(10**6), r.random(), 4000, r.choice([.4, .6, .8, 1]))] for k in range(6 if q else 40)]
    S += [['sizes %d bip %.3f 3 4 0 %d %d %d -1' % (r.randrange(10**6), r.random(), 3000, a, b)] for a, b in ((0, 3), (1, 4), (2, 12), (5, 5))]
    ctx.check_traces('ModelsTrace', exe, S, timeout=200, label='(frequencies)')


CHECKS = {'C24': c24}
