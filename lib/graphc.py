"""C09-C13, C21-C23: the linked-list networks of graph.c and bipartite.c"""

LAB = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p']


def odd_labels(r, n):
    """labels that share prefixes, look like numbers, differ in case, are long"""
    k = r.random()
    if k < .35: return LAB[:n]
    if k < .5: L = [str(i) for i in range(1, 40)] + ['01', '1.0', '-1']
    elif k < .65: L = ['x' * i for i in range(1, 30)]
    elif k < .8: L = ['node_%d' % i for i in range(40)] + ['Node_1', 'node_', 'NODE_2', 'node_1_', 'node-1']
    else: L = ['a', 'A', 'ab', 'aB', 'b', 'ba', 'B', '#', '*', '@', 'L' * 99, 'L' * 98, "o'x", 'z9', '%s', '\\n', '0', '+', '1e3', 'nan']
    r.shuffle(L)
    while len(L) < n: L.append('q%d' % len(L))
    return L[:n]


def net(r, n, pe=None, slot=0, directed=False, wmax=7, labs=None, connected=False):
    """commands that build a random network"""
    L = labs or LAB[:n]
    pe = r.choice([.15, .3, .5, .8]) if pe is None else pe
    P = [(i, j) for i in range(n) for j in range(n) if (i != j if directed else i < j)]
    E = {p for p in P if r.random() < pe}
    if connected:
        for i in range(1, n):
            j = r.randrange(i); E.add((j, i))
    E = list(E); r.shuffle(E)
    s = ['new %d %s' % (slot, ' '.join(L))]
    for i, j in E:
        if not directed and r.random() < .5: i, j = j, i
        s.append('%s %d %s %s 0 0 %d' % ('arc' if directed else r.choice(['link', 'link', 'soft']), slot, L[i], L[j], r.randint(1, wmax)))
    return s, E


def shaped(r, n):
    """undirected shapes that random networks rarely have; node order shuffled"""
    k = r.choice(['path', 'ring', 'star', 'tree', 'two', 'bip', 'clique+tail', 'grid'])
    E = set()
    if k == 'path': E = {(i, i + 1) for i in range(n - 1)}
    elif k == 'ring': E = {(i, (i + 1) % n) for i in range(n)}
    elif k == 'star': E = {(0, i) for i in range(1, n)}
    elif k == 'tree': E = {(r.randrange(i), i) for i in range(1, n)}
    elif k == 'two':
        h = n // 2
        E = {(r.randrange(i), i) for i in range(1, h)} | {(r.randrange(h, i), i) for i in range(h + 1, n)}
    elif k == 'bip': E = {(i, j) for i in range(n // 2) for j in range(n // 2, n) if r.random() < .7}
    elif k == 'grid': E = {(i, i + 1) for i in range(n - 1) if i % 3 != 2} | {(i, i + 3) for i in range(n - 3)}
    else: E = {(i, j) for i in range(n // 2) for j in range(i)} | {(i, i + 1) for i in range(n // 2 - 1, n - 1)}
    E = {(min(e), max(e)) for e in E if e[0] != e[1]}
    p = list(range(n)); r.shuffle(p)
    L = LAB[:n]
    s = ['new 0 ' + ' '.join(L)]
    E = list(E); r.shuffle(E)
    for i, j in E:
        s.append('link 0 %s %s 0 0 %d' % (L[p[i]], L[p[j]], r.randint(1, 7)))
    return s, E


def many(r, n):
    """labels of networks of more than a handful of nodes"""
    f = r.choice([lambda i: 'v%d' % i, lambda i: str(i), lambda i: '%03d' % (999 - i), lambda i: chr(97 + i % 26) * (1 + i // 26)])
    L = [f(i) for i in range(n)]; r.shuffle(L)
    return L


def sizes(ctx, a, b, k):
    return [ctx.rng.randint(a, b) for _ in range(k if ctx.quick else 12 * k)]


def bip_file(r, w=1, a=None, b=None, repeat=True, labs=None, pe=None, wmax=4, ints=False):
    a = a or r.randint(1, 6); b = b or r.randint(1, 6)
    A = odd_labels(r, a) if labs is None else labs[0]; B = odd_labels(r, b) if labs is None else labs[1]
    pe = r.choice([.3, .5, .8]) if pe is None else pe
    E = [(x, y) for x in A for y in B if r.random() < pe] or [(A[0], B[0])]
    if repeat and r.random() < .4: E += [r.choice(E) for _ in range(r.randint(1, 3))]
    r.shuffle(E)
    W = lambda: str(r.randint(1, wmax)) if ints else r.choice(['1', '2', '0.5', '1.25', '3', '4', '0.75'])
    return ' '.join('%s,%s,%s' % (x, y, W()) if w else '%s,%s' % (x, y) for x, y in E), E


GINV = ['CleanInv', 'SymmInv', 'Totals', 'SumLaws']
GV = dict(view='NoHist', constraint='Bound')


def gmc(ctx, gen=True, depth=5):
    B = dict(Labels='{"a","b","c"}', WCAP=1, DIRECTED='FALSE', COPIES='FALSE', GEN='FALSE', DEPTH=99)
    ctx.model_check('GraphMC', B, invariants=GINV, **GV)
    ctx.model_check('GraphMC', dict(B, Labels='{"a","b"}', WCAP=1 if ctx.quick else 2, DIRECTED='TRUE', COPIES='TRUE'), invariants=GINV, **GV)
    if not ctx.quick:
        ctx.model_check('GraphMC', dict(B, WCAP=2), invariants=GINV, **GV)
    if not gen:
        return []
    G = dict(B, GEN='TRUE', DEPTH=depth + (0 if ctx.quick else 2))
    return ctx.generate('GraphMC', G, action_constraint='Emit', **GV) + \
        ctx.generate('GraphMC', dict(G, Labels='{"a","b"}', DIRECTED='TRUE', COPIES='TRUE'), action_constraint='Emit', **GV)


def every(ctx, laws, und=4, dire=3):
    """all undirected networks of und nodes, all directed ones of dire nodes"""
    S = []
    for n, d in ((und, 'FALSE'), (dire, 'TRUE')):
        if n:
            ctx.model_check('GraphAllMC', dict(NN=n, DIRECTED=d, GEN='FALSE'), invariants=laws)
            S += [(s, d == 'TRUE') for s in ctx.generate('GraphAllMC', dict(NN=n, DIRECTED=d, GEN='TRUE'), action_constraint='Emit')]
    return S


def edits(r, L, n, directed):
    s = []
    for _ in range(n):
        x = r.random(); a, b = r.choice(L), r.choice(L); sl = 1 if r.random() < .25 else 0
        if x < .30: s.append('%s %d %s %s %d %d %d' % ('arc' if directed else r.choice(['link', 'link', 'soft']), sl, a, b, r.randrange(2), r.randrange(2), r.randint(1, 8)))
        elif x < .45: s.append('%s %d %s %s' % (r.choice(['unarc', 'unlink']) if directed else 'unlink', sl, a, b))
        elif x < .60: s.append('node %d %s' % (sl, a))
        elif x < .68: s.append('rmnode %d %s' % (sl, a))
        elif x < .74: s.append('rename %d %s %s' % (sl, a, b))
        elif x < .80: s.append('copy')
        elif x < .84: s.append('swap')
        elif x < .90: s.append('%s %d' % (r.choice(['renum', 'clean', 'rewire']), sl))
        elif x < .93 and not directed: s.append('isolated %d' % sl)
    return s


def c09(ctx):
    exe = ctx.build('hgraph.c')
    g = gmc(ctx, depth=5)
    ctx.check_traces('GraphTrace', exe, [s + ['look 0 0 a b c', 'copy'] for s in g[::3 if ctx.quick else 1]], label='(generated)')
    r = ctx.rng
    S = []
    for k in range(110 if ctx.quick else 1500):
        directed = r.random() < .3
        n = r.randint(1, 9); L = odd_labels(r, n + 2)
        s, _ = net(r, n, directed=directed, labs=L[:n])
        s += edits(r, L, r.randint(5, 30), directed)
        s.append('look 0 0 ' + ' '.join(L))
        S.append(s)
    # random additions and removals
    for k in range(60 if ctx.quick else 900):
        n = r.randint(3, 10); directed = r.random() < .4
        s, E = net(r, n, directed=directed, pe=.35)
        free = n * (n - 1) // (1 if directed else 2) - len(E); m = len(E); sy = 0 if directed else 1
        for _ in range(4):
            if r.random() < .5:
                # both directions are drawn blindly: leave room
                q = r.randint(0, max(0, min(free, 6)))
                s.append('addrand 0 %d %d %d' % (q, sy, r.randrange(10**6))); free -= q; m += q
            else:
                q = r.randint(0, min(m, 5))
                s.append('rmrand 0 %d %d %d' % (q, sy, r.randrange(10**6))); free += q; m -= q
        s += ['look 0 %d a b' % sy, 'copy', 'look 1 %d c z' % sy]
        S.append(s)
    for n in sizes(ctx, 25, 60, 4):
        d = r.random() < .4; L = many(r, n + 2)
        s, E = net(r, n, r.choice([.5, 2., 4.]) / n, directed=d, labs=L[:n])
        s += ['rmnode 0 ' + x for x in r.sample(L[:n], 2)] + ['copy'] + edits(r, L, 25, d)
        if not d and len(E) > 20: s += ['addrand 0 9 1 %d' % r.randrange(10**6)] if len(E) < n * n // 4 else []
        S.append(s + ['look 0 0 ' + ' '.join(r.sample(L, 8))])
    ctx.check_traces('GraphTrace', exe, S, label='(random)')


def num(r, k):
    return r.choice(['%d' % k, '%d.0' % k, '%d.5' % k, '%d.25' % k, '0%d' % k, '%de0' % k, '+%d' % k])


def c10(ctx):
    exe = ctx.build('hgraph.c')
    ctx.model_check('ReadMC', dict(Labels='{"a","b"}', MAXLINES=3, GEN='FALSE'), invariants=['Inv'])
    g = ctx.generate('ReadMC', dict(Labels='{"a","b"}', MAXLINES=3 if ctx.quick else 4, GEN='TRUE'), invariants=['Inv'], action_constraint='Emit')
    ctx.check_traces('GraphTrace', exe, g, label='(generated)')
    r = ctx.rng
    S = []
    for k in range(150 if ctx.quick else 2500):
        w, au, ad, sy, st = r.randrange(2), r.randrange(2), r.randrange(2), r.randrange(2), r.randrange(8)
        n = r.randint(1, 9); L = odd_labels(r, n)
        ls = []
        for _ in range(r.randint(1, 24)):
            a, b = r.choice(L), r.choice(L)
            ls.append('%s,%s,%s' % (a, b, num(r, r.randint(1, 9))) if w else '%s,%s' % (a, b) + (',7' if r.random() < .1 else ''))
        s = ['read 0 %d %d %d %d %d %s' % (w, au, ad, sy, st, ' '.join(ls)), 'look 0 0 ' + ' '.join(L), 'write 0 1 0', 'write 0 0 0']
        if sy: s += ['write 0 1 1', 'write 0 0 1']
        S.append(s)
    for n in sizes(ctx, 20, 70, 4):
        L = many(r, n); w, au, ad, sy = [r.randrange(2) for _ in range(4)]
        ls = ['%s,%s' % (r.choice(L), r.choice(L)) + (',%d' % r.randint(1, 9) if w else '') for _ in range(r.randint(n, 4 * n))]
        S.append(['read 0 %d %d %d %d 0 ' % (w, au, ad, sy) + ' '.join(ls), 'look 0 0 ' + ' '.join(r.sample(L, 8)), 'write 0 1 0'] + (['write 0 1 1'] if sy else []))
        f, _ = bip_file(r, w, n, n // 2, labs=(many(r, n), many(r, n // 2)), pe=3. / n)
        S.append(['readbip 0 %d %d 0 %s' % (w, ad, f), 'b:write 0 1', 'b:nlinks 0'])
    # weights with many digits, small and large
    for k in range(20 if ctx.quick else 300):
        n = r.randint(2, 6); bp = r.randrange(2)
        W = lambda: r.choice(['0.1', '0.3333333', '1234.5678', '100000.25', '2000000', '1e-9', '1.23456789e10', '0.1234567891', '3', '%.7f' % r.random(), '-0.5'])
        P = [(LAB[i], LAB[j]) for i in range(n) for j in range(n) if (bp or i < j) and r.random() < .6] or [('a', 'b')]
        r.shuffle(P)
        S.append(['rt %d %d ' % (bp, r.randrange(2)) + ' '.join('%s,%s,%s' % (a, b, W()) for a, b in P)])
    for k in range(80 if ctx.quick else 1200):
        w, ad, st = r.randrange(2), r.randrange(2), r.randrange(8)
        f, _ = bip_file(r, w)
        S.append(['readbip 0 %d %d %d %s' % (w, ad, st, f), 'b:write 0 1', 'b:write 0 0', 'b:nlinks 0'])
    # lines that cannot be read
    for k in range(12):
        L = ['a,b,1', 'b,c,2', 'c,d,1']; i = r.randrange(3); w = r.randrange(2)
        L[i] = r.choice(['a', '.', 'a,b' if w else 'b'])
        S.append([('read 0 %d 0 0 1 0 ' % w if k % 2 else 'readbip 0 %d 0 0 ' % w) + ' '.join(L), 'new 1 x'])
    ctx.check_traces('GraphTrace', exe, S, label='(random)')


def swappable(n, E, directed=False):
    E = {(min(e), max(e)) for e in E}
    for a, b in E:
        for c, d in E:
            if len({a, b, c, d}) == 4:
                for x, y in (((a, d), (c, b)), ((a, c), (b, d))):
                    if (min(x), max(x)) not in E and (min(y), max(y)) not in E:
                        return True
    return False


def bswappable(E):
    E = set(E)
    return any(a != c and b != d and (a, d) not in E and (c, b) not in E for a, b in E for c, d in E)


def c11(ctx):
    exe = ctx.build('hgraph.c')
    ctx.model_check('SwapMC', dict(NN=5, BIP='FALSE', GEN='FALSE'), invariants=['Inv'])
    ctx.model_check('SwapMC', dict(NN=3, BIP='TRUE', GEN='FALSE'), invariants=['Inv'])
    g = ctx.generate('SwapMC', dict(NN=4 if ctx.quick else 5, BIP='FALSE', GEN='TRUE'), action_constraint='Emit')
    g += ctx.generate('SwapMC', dict(NN=3, BIP='TRUE', GEN='TRUE'), action_constraint='Emit')
    seen, G = set(), []
    for s in g:
        if tuple(s[:-1]) not in seen or not ctx.quick:
            seen.add(tuple(s[:-1])); G.append(s)
    ctx.check_traces('GraphTrace', exe, G, label='(generated)')
    r = ctx.rng
    S = []
    while len(S) < (120 if ctx.quick else 2000):
        n = r.randint(4, 12)
        if r.random() < .5: s, E = net(r, n)
        else: s, E = shaped(r, n)
        if not swappable(n, E): continue
        for _ in range(r.randint(1, 4)):
            s.append('rand 0 %s %d' % (r.choice(['0', '1', '2', '5', '20', '0.3']), r.randrange(10**6)))
        s += ['look 0 1 a b', 'copy', 'rand 1 3 %d' % r.randrange(10**6)]
        S.append(s)
    while len(S) < (220 if ctx.quick else 3600):
        f, E = bip_file(r, 0, r.randint(2, 7), r.randint(2, 7), repeat=False)
        if not bswappable(E): continue
        s = ['readbip 0 0 0 0 ' + f]
        for _ in range(r.randint(1, 3)):
            s.append('b:rand 0 %s %d' % (r.choice(['0', '1', '2', '5', '20', '0.3']), r.randrange(10**6)))
        s += ['b:nlinks 0', 'b:invert 0', 'b:rand 0 2 %d' % r.randrange(10**6)]
        S.append(s)
    for n in sizes(ctx, 25, 60, 3):
        s, _ = net(r, n, r.choice([2., 4., 8.]) / n, labs=many(r, n), connected=True)
        S.append(s + ['rand 0 %s %d' % (r.choice(['1', '5', '20']), r.randrange(10**6)), 'look 0 1 v1 1'])
        f, _ = bip_file(r, 0, n, n // 2, labs=(many(r, n), many(r, n // 2)), pe=4. / n, repeat=False)
        S.append(['readbip 0 0 0 0 ' + f, 'b:rand 0 %s %d' % (r.choice(['1', '5', '20']), r.randrange(10**6)), 'b:nlinks 0'])
    ctx.check_traces('GraphTrace', exe, S, label='(random)')


def c12(ctx):
    exe = ctx.build('hgraph.c')
    S = []
    for s, d in every(ctx, ['CompLaws'], 4 if ctx.quick else 5, 3 if ctx.quick else 4):
        S.append(s + ['comps 0 %d 1000' % (0 if d else 1)])
    ctx.check_traces('GraphTrace', exe, S, label='(generated)')
    r = ctx.rng
    S = []
    for k in range(200 if ctx.quick else 4000):
        n = r.randint(1, 11)
        d = r.random() < .65
        pe = r.choice([.5 / n, 1. / n, 1.5 / n, 2.5 / n, .5])
        if r.random() < .2 and n > 1 and not d: s, _ = shaped(r, n)
        else: s, _ = net(r, n, pe, directed=d, labs=odd_labels(r, n))
        s += ['comps 0 %d %d' % (0 if d else 1, r.choice([1000, 1000, 0, 2, 4])), 'comps 0 0 1000']
        S.append(s)
    for n in sizes(ctx, 25, 70, 6):
        d = r.random() < .5
        s, _ = net(r, n, r.choice([.7, 1.2, 2.]) / n, directed=d, labs=many(r, n))
        S.append(s + ['comps 0 %d 1000' % (0 if d else 1)])
    # long directed chains met in unfavourable orders
    for k in range(30 if ctx.quick else 400):
        n = r.randint(4, 10); p = list(range(n)); r.shuffle(p)
        s = ['new 0 ' + ' '.join(LAB[:n])]
        for i in range(n - 1):
            if r.random() < .9:
                a, b = LAB[p[i]], LAB[p[i + 1]]
                if r.random() < .4: a, b = b, a
                s.append('arc 0 %s %s 0 0 %d' % (a, b, r.randint(1, 5)))
        if r.random() < .3: s.append('arc 0 %s %s 0 0 1' % (LAB[p[-1]], LAB[p[0]]))
        S.append(s + ['comps 0 0 1000', 'comps 0 0 1'])
    ctx.check_traces('GraphTrace', exe, S, label='(random)')


def c13(ctx):
    exe = ctx.build('hgraph.c')
    S = []
    for s, d in every(ctx, ['MeasLaws'], 4 if ctx.quick else 5, 3):
        S.append(s + ['meas 0 %d' % (0 if d else 1), 'look 0 %d a' % (0 if d else 1)])
    if ctx.quick:
        five = ctx.generate('GraphAllMC', dict(NN=5, DIRECTED='FALSE', GEN='TRUE'), action_constraint='Emit')
        S += [s + ['meas 0 1'] for s in ctx.rng.sample(five, 120)]
    ctx.check_traces('GraphTrace', exe, S, label='(generated)')
    r = ctx.rng
    S = []
    for k in range(110 if ctx.quick else 1500):
        n = r.randint(2, 10)
        if r.random() < .5 and n > 3: s, _ = shaped(r, n)
        else: s, _ = net(r, n, r.choice([.2, .4, .7, None]), connected=r.random() < .6)
        S.append(s + ['meas 0 1', 'look 0 1 a z'])
        if r.random() < .3: S[-1] += ['rmnode 0 a', 'meas 0 1']
    for k in range(20 if ctx.quick else 300):
        n = r.randint(2, 8)
        s, _ = net(r, n, r.choice([.15, .3, .5]), directed=True)
        S.append(s + ['meas 0 0'])
    ctx.check_traces('GraphTrace', exe, S, label='(random)')
    # large networks of shapes whose measurements have closed forms
    S = [['bignet %s %d %d' % (k, a, b)] for k, a, b in
         [('star', 46400, 0), ('star', r.randint(1300, 30000), 0), ('star', r.randint(3, 60), 0), ('friends', 46400, 0), ('friends', 2 * r.randint(2, 120), 1),
          ('diamonds', 34, 0), ('diamonds', r.randint(32, 60), 0), ('diamonds', r.randint(1, 12), 0), ('bip', r.randint(2, 40), r.randint(2, 40)), ('bip', 1150, 70),
          ('path', 10050, 0), ('path', r.randint(2, 300), 1)]]
    ctx.check_traces('GraphTrace', exe, S, label='(large)')


def loops(s):
    return any(c.split()[0] in ('link', 'soft', 'arc') and c.split()[2] == c.split()[3] for c in s)


def c21(ctx):
    exe = ctx.build('hgraph.c')
    gmc(ctx, gen=False)
    B = dict(Labels='{"a","b"}', WCAP=1, DIRECTED='FALSE', COPIES='TRUE', GEN='TRUE', DEPTH=6 if ctx.quick else 8)
    g = ctx.generate('GraphMC', B, action_constraint='Emit', **GV)
    ctx.check_traces('GraphTrace', exe, [s + ['sum'] + ([] if loops(s) else ['cmp']) + ['swap', 'sum'] for s in g if 'copy' in s], label='(generated)')
    r = ctx.rng
    S = []
    for k in range(160 if ctx.quick else 2500):
        pool = odd_labels(r, 14)
        a, b = r.randint(0, 7), r.randint(0, 7)
        d = r.random() < .3
        A, B = r.sample(pool, a), r.sample(pool, b)
        if r.random() < .3: B = [x for x in pool if x not in A][:b]
        s = net(r, len(A), slot=0, labs=A, directed=d)[0] + net(r, len(B), slot=1, labs=B, directed=d)[0]
        if r.random() < .3 and A: s.append('link 0 %s %s 1 0 3' % (A[0], A[0]))
        if r.random() < .3 and B: s.append('link 1 %s %s 1 0 2' % (B[0], B[0]))
        s.append('sum')
        if not d and not loops(s): s.append('cmp')
        s += ['swap', 'sum', 'copy', 'sum']
        S.append(s)
    for n in sizes(ctx, 20, 60, 4):
        L = many(r, n + n // 2); d = r.random() < .3
        A, B = r.sample(L, n), r.sample(L, r.choice([n, n // 3]))
        s = net(r, len(A), 3. / n, slot=0, labs=A, directed=d)[0] + net(r, len(B), 3. / len(B), slot=1, labs=B, directed=d)[0]
        S.append(s + ['sum'] + ([] if d else ['cmp']) + ['swap', 'sum'])
    ctx.check_traces('GraphTrace', exe, S, label='(random)')


def c22(ctx):
    exe = ctx.build('hgraph.c')
    for x in ('TRUE', 'FALSE'):
        ctx.model_check('QueuesMC', dict(LEN=10 if ctx.quick else 14, LIFO=x, GEN='FALSE'), invariants=['Order'], constraint='Bound')
    g = ctx.generate('QueuesMC', dict(LEN=5 if ctx.quick else 6, LIFO='TRUE', GEN='TRUE'), action_constraint='Emit', constraint='Bound')
    ctx.check_traces('GraphTrace', exe, g, label='(generated)')
    r = ctx.rng
    S = []
    for k in range(60 if ctx.quick else 800):
        ops, v = [], 0; p = r.choice([.3, .5, .7])
        for _ in range(r.randint(5, 300)):
            x = r.random()
            if x < p: v += 1; ops.append(str(r.choice([v, v, v, r.randint(1, 9999)])))
            elif x < .93: ops.append('-')
            elif x < .99: ops.append('?')
            else: ops.append('0')
        o = ' '.join(ops)
        m, d, q = 0, 0, []
        for x in ops:
            if x == '-': d = max(0, d - 1); q.append('-')
            elif x not in '?0': d += 1; m = max(m, d); q.append(str(int(x) % 1000))
        S.append(['stack ' + o, 'queue ' + o, 'mstack %d %s' % (max(m, 1), ' '.join(q))])
    for k in range(90 if ctx.quick else 1500):
        n = r.randint(1, 12); L = odd_labels(r, n + 5)
        d = r.random() < .3
        s, _ = net(r, n, labs=L[:n], directed=d)
        q = 'look 0 %d ' % (0 if d else 1) + ' '.join(L + [(L[0] + 'x')[:99], L[0][:-1] or 'y'])
        s.append(q)
        for _ in range(r.randint(1, 5)):
            s += [r.choice(['node 0 %s' % r.choice(L), 'rmnode 0 %s' % r.choice(L), 'rename 0 %s %s' % (r.choice(L), r.choice(L)), 'copy', 'swap', 'renum 0']), q]
        S.append(s)
    ctx.check_traces('GraphTrace', exe, S, label='(random)')


def c23(ctx):
    exe = ctx.build('hgraph.c')
    B = dict(A='{"a","b"}', C='{"a","x"}', MAXLINES=3, GEN='FALSE')
    ctx.model_check('BipartiteMC', B, invariants=['Sides', 'RmLaw'], view='NoHist')
    g = ctx.generate('BipartiteMC', dict(B, GEN='TRUE', MAXLINES=3 if ctx.quick else 4), action_constraint='Emit', view='NoHist', constraint='Bound')
    ctx.check_traces('GraphTrace', exe, [s + ['b:nlinks 0', 'b:common 0'] for s in g], label='(generated)')
    r = ctx.rng
    S = []
    for k in range(170 if ctx.quick else 2500):
        w, ad = r.randrange(2), r.randrange(2)
        a, b = r.randint(1, 6), r.randint(1, 6)
        A, T = odd_labels(r, a), odd_labels(r, b)
        f, _ = bip_file(r, w, a, b, labs=(A, T), ints=r.random() < .5)
        s = ['readbip 0 %d %d 0 %s' % (w, ad, f)]
        inv = 0
        for _ in range(r.randint(2, 9)):
            x = r.random()
            if x < .25: s.append('b:invert 0')
            elif x < .45: s.append('bcopy')
            elif x < .55: s.append('bswap')
            elif x < .65: s.append('b:rmnode %d %d %s' % (r.randrange(2), r.choice([1, 2]), r.choice(A + T)))
            elif x < .8: s.append('b:mod 0 ' + ' '.join(str(r.randrange(a)) if r.random() < .9 else '0' for _ in range(6)))
            elif x < .9: s.append('b:nlinks 0')
            else: s.append('b:invert 1')
        s += ['b:nlinks 0', 'b:common 0']
        S.append(s)
    for n in sizes(ctx, 20, 50, 4):
        A, T = many(r, n), many(r, n // 2); w = r.randrange(2)
        f, _ = bip_file(r, w, n, n // 2, labs=(A, T), pe=3. / n)
        S.append(['readbip 0 %d 1 0 %s' % (w, f), 'b:rmnode 0 1 ' + r.choice(A), 'b:rmnode 0 2 ' + r.choice(T), 'bcopy', 'b:invert 0', 'b:nlinks 0', 'b:common 0'])
    for k in range(120 if ctx.quick else 2000):
        w = r.randrange(2)
        a, b = r.randint(2, 6), r.randint(1, 6)
        f, E = bip_file(r, w, a, b, labs=(LAB[:a], [x.upper() for x in LAB[:b]]), pe=r.choice([.5, .8]), ints=r.random() < .5)
        n = len({e[0] for e in E}); s = ['readbip 0 %d 1 0 %s' % (w, f)]
        for _ in range(3): s.append('b:mod 0 ' + ' '.join(str(r.randrange(n)) for _ in range(n)))
        s.append('b:mod 0 ' + ' '.join('0' for _ in range(n)))
        S.append(s)
    ctx.check_traces('GraphTrace', exe, S, label='(random)')
    ctx.check_traces('GraphTrace', exe, [['bigteam %d' % r.randint(3, 100)], ['bigteam 66400'], ['bigteam %d' % r.randint(66000, 80000)]], label='(large teams)')


def projections(ctx):
    """C07: projections of linked-list bipartite networks"""
    exe = ctx.build('hgraph.c')
    g = ctx.generate('BipartiteMC', dict(A='{"a","b"}', C='{"a","x"}', MAXLINES=3 if ctx.quick else 4, GEN='TRUE'), action_constraint='Emit', view='NoHist', constraint='Bound')
    G = [s + ['b:proj 0 0', 'b:proj 0 1', 'b:common 0'] for s in g if len(s) == 1]
    r = ctx.rng
    S = []
    for k in range(100 if ctx.quick else 1500):
        w = r.randrange(2)
        f, _ = bip_file(r, w, r.randint(1, 8), r.randint(1, 7))
        S.append(['readbip 0 %d %d 0 %s' % (w, r.randrange(2), f), 'b:proj 0 0', 'b:proj 0 1', 'b:common 0', 'b:invert 0', 'b:proj 0 %d' % w])
    for n in sizes(ctx, 20, 45, 3):
        f, _ = bip_file(r, 1, n, n // 2, labs=(many(r, n), many(r, n // 2)), pe=r.choice([2., 4.]) / n)
        S.append(['readbip 0 1 %d 0 %s' % (r.randrange(2), f), 'b:proj 0 0', 'b:proj 0 1', 'b:invert 0', 'b:proj 0 1'])
    ctx.check_traces('GraphTrace', exe, G + S, label='(linked-list projections)')


CHECKS = {'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C21': c21, 'C22': c22, 'C23': c23}
