"""C29: tools.c"""


def c29(ctx):
    exe = ctx.build('htools.c')
    r, q = ctx.rng, ctx.quick
    INV = ['Same', 'Right']
    ctx.model_check('ToolsMC', dict(N=3 if q else 4, MAXR=4 if q else 5, GEN='FALSE'), invariants=INV, view='View', properties=['Once'])
    S = ctx.generate('ToolsMC', dict(N=3, MAXR=4, GEN='TRUE'), action_constraint='Emit', view='View')
    if q: S = r.sample(S, min(len(S), 400))
    ctx.check_traces('ToolsTrace', exe, S, label='(histories of the table)')
    k = 60 if q else 1000
    S = []
    for i in range(k):
        n = r.choice([1, 2, 5, 20, 60])
        s = ['lc new %d' % n]
        for j in range(12):
            a = r.choice([r.randrange(119), r.randrange(2 * n), n, n - 1, max(0, n - 2)])
            s.append('lc %d %d' % (a, r.choice([0, a, a // 2, r.randrange(a + 1), r.randrange(a + 1)])))
        S.append(s + s[1:4])
    for i in range(k):
        n = r.randrange(1, 13); m = r.choice([3, 100, 2000])
        d = [r.choice([r.randint(-m, m), r.randint(0, m), -m, m, 0]) for j in range(n)]
        if r.random() < .2: d = [d[0]] * n
        if r.random() < .2: d = [-abs(x) for x in d]
        S.append(['stat %d %s' % (n, ' '.join(map(str, d)))])
    S.append(['fact 0 21'])
    S += [['choose %d %d' % (n, n + r.choice([0, 1, 3]))] for n in range(0, 50)]
    for i in range(k):
        kind = r.choice(['log', 'fact', 'gamma', 'harmonic']); size = r.choice([1, 2, 5, 20, 50, r.randrange(1, 60)])
        top = size if kind == 'harmonic' else 100
        Q = [r.choice([r.randrange(top), min(top - 1, size), size - 1, 0]) for j in range(8)]
        S.append(['table %s %d %d 8 %s' % (kind, size, r.randint(1, 9), ' '.join(map(str, Q)))])
    S += [['geo %d %d %.3f' % (r.randrange(10**6), 20000 if q else 100000, r.choice([.1, .3, .5, .9, 1, r.uniform(.05, 1)]))] for i in range(8 if q else 60)]
    for i in range(k):
        h = r.randint(1, 64); b = h * 1.4427
        n = max(2, int(b * b * r.choice([r.uniform(.65, 1.55)] * 3 + [r.uniform(.05, 5)])))
        u = r.randint(1, 4)
        S.append(['decay %d %d %d %d %d' % (n, h, u, r.randint(u + 1, 8), r.choice([0, r.randrange(80), r.randrange(80)]))])
    for i in range(20):
        a, b = r.randrange(1, 9), r.randrange(1, 9)
        S.append(['mat %d %d %s' % (a, b, ' '.join(str(r.randint(-999, 99999)) for j in range(a * b)))])
    for i in range(30 if q else 200):
        S.append(['lines %s' % ' '.join(map(str, (lambda L: [len(L)] + L)([r.choice([0, 1, 5, 80, 998, 999, 1000, 1001, 1998, 2500]) for j in range(r.randrange(1, 12))])))])
    ctx.check_traces('ToolsTrace', exe, S, label='(helpers)')


CHECKS = {'C29': c29}
