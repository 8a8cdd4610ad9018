"""C25, C26: the programs in utils, reliability, multiblock, only_deg, recommender, conflict"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, tempfile, threading
import vlib
from part import rand_labels


def fix(x):
    try: x = float(x)
    except ValueError: return 2000000005
    if x != x: return 2000000001
    if abs(x) > 1900: return 2000000004
    return round(x * 1e6)


def num(x):
    try: return max(-2000000000, min(2000000000, int(x)))
    except ValueError: return -999999999


class Programs:
    """scripts: 'file NAME SEP line line...' (fields joined by commas), then 'PROGRAM args...'; every
    program has a function that turns what it printed and wrote into an event"""
    def __init__(self, ctx, exes, fns):
        self.ctx, self.exes, self.fns = ctx, exes, fns
        self.hung = threading.Event()

    def go(self, d, prog, args, timeout=100, sin=None):
        if sin is not None: open(d + '/.in', 'w').write(sin)
        e = dict(os.environ)
        e.update({'ASAN_OPTIONS': 'detect_leaks=0:exitcode=66:max_malloc_fill_size=1000000:malloc_fill_byte=190', 'LC_ALL': 'C'})
        with open(d + '/.out', 'w+b') as o, open(d + '/.err', 'w+b') as er:
            try:
                p = subprocess.run([self.exes[prog]] + args, cwd=d, env=e, stdin=open(d + '/.in') if sin is not None else subprocess.DEVNULL, stdout=o, stderr=er, timeout=timeout)
            except subprocess.TimeoutExpired:
                self.hung.set()
                return None, '', 'no answer within %d s' % timeout
            o.seek(0); er.seek(0)
            out = o.read(1 << 24).decode('latin-1'); err = er.read(1 << 16).decode('latin-1')
        if p.returncode == 66 or p.returncode < 0:
            m = re.search(r'ERROR: AddressSanitizer[^\n]*', err)
            return None, '', 'exit %d %s' % (p.returncode, m.group(0)[:200] if m else '')
        return p.returncode, out, err

    def script(self, s, again=False):
        if self.hung.is_set() and not again: return ['{"ev":"Reset"}']       # one program that hangs is enough
        d = tempfile.mkdtemp(dir=self.ctx.tmp)
        try:
            ev = ['{"ev":"Reset"}']
            for c in s:
                t = c.split(' ')
                if t[0] == 'file':
                    sep = {'t': '\t', 's': ' ', 'w': '   '}[t[2][0]]
                    with open(d + '/' + t[1], 'w') as f:
                        f.write('\n'.join(sep.join(x.split(',')) for x in t[3:]) + ('' if 'x' in t[2] else '\n'))
                    k = t[2][1]
                    if k == 'n': ev.append(json.dumps({'ev': 'In', 's': 'abc'.index(t[1][0]), 'lines': [x.split(',')[:2] for x in t[3:]]}))
                    elif k == 'd': ev.append(json.dumps({'ev': 'PairsIn'}))
                    elif k == 'b': ev.append(json.dumps({'ev': 'BIn', 'lines': [x.split(',')[:2] + [int(x.split(',')[2]) if x.count(',') > 1 else 1] for x in t[3:]]}))
                    elif k == 'p':
                        g, cur = [], []
                        for x in t[3:]:
                            if x == '///': g.append(cur); cur = []
                            else: cur.append(x)
                        ev.append(json.dumps({'ev': 'PIn', 's': 'pq'.index(t[1][0]), 'groups': g}))
                    elif k in 'wr': ev.append(json.dumps({'ev': k.upper() + 'In', 'lines': [x.split(',')[:2] + [int((x + ',1').split(',')[2])] for x in t[3:]]}))
                    elif k == 'l': ev.append(json.dumps({'ev': 'LIn', 'lines': [[y for y in x.split(',') if y] for x in t[3:]]}))
                    elif k == 'q': ev.append(json.dumps({'ev': 'QIn', 'lines': [x.split(',')[:2] for x in t[3:]]}))
                    continue
                if t[0] == 'usage':
                    rc, out, err = self.go(d, t[1], t[2:])
                    if rc is None: ev.append(json.dumps({'ev': 'Crash', 'how': err})); break
                    ev.append(json.dumps({'ev': 'Usage', 'prog': t[1], 'rc': rc, 'says': int('Use:' in out + err)})); continue
                if t[0][-1] == '<': rc, out, err = self.go(d, t[0][:-1], [], sin='\n'.join(t[1:]) + '\n')     # answers to its questions
                elif t[0][-1] == '-': rc, out, err = self.go(d, t[0][:-1], t[2:], sin=open(d + '/' + t[1]).read())
                else: rc, out, err = self.go(d, t[0], t[1:])
                if rc is None: ev.append(json.dumps({'ev': 'Crash', 'how': err})); break
                x = self.fns[t[0].rstrip('<-')](d, out, t[1:])
                x = dict({'ev': x.pop('ev', t[0])}, rc=rc, **x)
                ev.append(json.dumps(x))
            return ev
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def check(self, module, S, label):
        with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
            res = list(ex.map(self.script, S))
        self.ctx.check_traces(module, None, S, results=res, rerun=lambda i: self.script(S[i], True), label=label)


def build(ctx, D):
    """D: program -> source"""
    ctx.build(None, main_src=vlib.REPO + '/' + next(iter(D.values())))
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        return dict(zip(D, ex.map(lambda m: ctx.build(None, main_src=vlib.REPO + '/' + m), D.values())))


# ------------------------------------------------------------------ utilities
UTILS = {k: 'utils/main_%s.c' % k for k in ('countlinks', 'nodeprop', 'netprop', 'getgiant', 'netcompare', 'netrandomize', 'mutualinfo', 'lapspec',
                                            'bipartitemodularity', 'bipartitemodularity_w', 'modularbipart')}


def rows(out): return [x.split() for x in out.split('\n') if x.strip()]


def e_countlinks(d, out, a):
    m = re.findall(r'Nodes: (\S+)\s+Links: (\S+)\s+<k> = (\S+)', out)
    return {'f': [num(m[0][0]), num(m[0][1]), fix(m[0][2])] if len(m) == 1 and len(rows(out)) == 1 else []}


def e_nodeprop(d, out, a): return {'rows': [[r[0], num(r[1]), fix(r[2])] if len(r) == 3 else ['?', -1, -1] for r in rows(out)]}


NP = ['Num_components', 'Size_GC', 'Av_size_other', 'Nodes', 'Links', 'Av_degree', 'Inverse_path_length', 'Clustering', 'Assortativity',
      'Betweenness_mean', 'Betweenness_std', 'Betweenness_min', 'Betweenness_max', 'Synchronizability', 'K_K2']


def e_netprop(d, out, a):
    R = rows(out)
    v = dict((r[0], r[1]) for r in R if len(r) == 2)
    return {**({'ev': 'netpropLong'} if len(set(open(d + '/' + a[0]).read().split())) > 20 else {}), 'each': int(sorted(r[0] for r in R) == sorted(NP)),
            'p': {k: (num(v.get(k, 'x')) if k in ('Num_components', 'Size_GC', 'Nodes', 'Links') else fix(v.get(k, 'x'))) for k in NP}}


def e_pairs(d, out, a): return {'rows': rows(out)}


def e_netcompare(d, out, a):
    v = dict(re.findall(r'^(\S+) = (\S+)$', out, re.M))
    return {'a': 'ab'.index(a[0][0]), 'each': len(v), 'p': {n: (fix if k[0] == 'p' else num)(v.get(k, 'x')) for n, k in
            (('na', 'S_A'), ('nb', 'S_B'), ('nc', 'S_(A&B)'), ('pab', 'p_n(A|B)'), ('pba', 'p_n(B|A)'),
             ('la', 'L_A'), ('lb', 'L_B'), ('lc', 'L_(A&B)'), ('qab', 'p_l(A|B)'), ('qba', 'p_l(B|A)'))}}


def e_value(d, out, a):
    m = re.findall(r'^\s*MI? = (\S+)$', out, re.M) or re.findall(r'^M = (\S+)$', out, re.M)
    return {'v': fix(m[0]) if len(m) == 1 else 2000000005, 'inv': int(a[-1] == '1'), 'a': 'apq'.index(a[0][0]) - 1, 'b': 'apq'.index(a[1][0]) - 1}


def e_lapspec(d, out, a):
    R = rows(out)
    return {'i': [num(r[0]) if len(r) == 2 else -1 for r in R], 'v': [fix(r[-1]) for r in R]}


def e_pairs_netprop(d, out, a):
    x = e_netprop(d, out, a); x['ev'] = 'netpropPairs'; x['k'] = int(a[0][1:]); return x


def e_modularbipart(d, out, a):
    V, E, mode, n, n1 = [], [], None, -1, -1
    if os.path.exists(d + '/binet.net'):
        for x in open(d + '/binet.net'):
            f = x.split()
            if not f: continue
            if f[0] == '*Vertices': mode = V; n, n1 = num(f[1]), num(f[2]) if len(f) > 2 else -1
            elif f[0][0] == '*': mode = E
            elif mode is V: V.append([num(f[0]), f[1].strip('"')])
            elif mode is E: E.append([num(f[0]), num(f[1])])
    return {'n': n, 'n1': n1, 'v': V, 'l': E, 'a': [num(x) for x in a[:4]], 'p': fix(a[4])}


UFN = {'lapspec': e_lapspec, 'countlinks': e_countlinks, 'nodeprop': e_nodeprop, 'netprop': lambda d, out, a: e_netprop(d, out, a) if a[0] == 'a' else e_pairs_netprop(d, out, a), 'getgiant': e_pairs, 'netcompare': e_netcompare,
       'netrandomize': e_pairs, 'mutualinfo': e_value, 'bipartitemodularity': e_value, 'bipartitemodularity_w': e_value, 'modularbipart': e_modularbipart}


def netfile(r, name, n, d=None, loops=True):
    labs = rand_labels(r, n) if r.random() < .5 else ['n%d' % i for i in range(n)]
    d = d if d is not None else r.choice([.15, .3, .5, .8])
    E = [(labs[i], labs[j]) for i in range(n) for j in range(i) if r.random() < d] or [(labs[0], labs[1])]
    E = [e if r.random() < .5 else e[::-1] for e in E]
    if loops and r.random() < .3: E.append((r.choice(labs),) * 2)
    if r.random() < .3: E.append(r.choice(E)[::-1])
    if r.random() < .3: E.append(r.choice(E))
    r.shuffle(E)
    x = ',%d' % r.randint(1, 9) if r.random() < .0 else ''
    return 'file %s %sn%s %s' % (name, r.choice('tsw'), r.choice(['', '', 'x']), ' '.join('%s,%s%s' % (a, b, x) for a, b in E)), E


def swappable(E):
    P = {frozenset(e) for e in E if e[0] != e[1]}
    for e in P:
        for f in P:
            a, b = sorted(e); c, d = sorted(f)
            if len({a, b, c, d}) == 4:
                for x, y in (({a, c}, {b, d}), ({a, d}, {b, c})):
                    if frozenset(x) not in P and frozenset(y) not in P: return True
    return False


def c26(ctx):
    X = Programs(ctx, build(ctx, UTILS), UFN)
    r = ctx.rng
    q = ctx.quick
    inv = ['RowsSumToZero', 'FirstTraces', 'KnownSpectra']
    ctx.model_check('SpectrumMC', {'NN': 5 if q else 6, 'GEN': 'FALSE'}, invariants=inv, view='View')
    S = [s + ['countlinks a', 'nodeprop a', 'lapspec a', 'netprop a', 'getgiant a'] for s in
         ctx.generate('SpectrumMC', {'NN': 4 if q else 5, 'GEN': 'TRUE'}, invariants=inv, view='View')]
    for k in range(70 if q else 1200):
        n = r.choice([2, 3, 4, 5, 6, 8, 11])
        f, E = netfile(r, 'a', n)
        s = [f, 'countlinks a', 'nodeprop a', 'lapspec a', 'netprop a', 'getgiant a']
        if swappable(E): s += ['netrandomize a %d' % r.randrange(10**6)]
        if not any(a == b for a, b in E):
            g, _ = netfile(r, 'b', r.choice([2, 4, n]), loops=False)
            if r.random() < .6:
                labs = sorted({x for e in E for x in e}) + ['new']
                g = 'file b sn ' + ' '.join('%s,%s' % tuple(r.sample(labs, 2)) for i in range(r.choice([1, 3, 8])))
            s += [g, 'netcompare a b', 'netcompare b a']
        S.append(s)
    # many components
    for n in (999, 1000, 1001, 1300):
        S.append(['file k%d sd ' % n + ' '.join('x%d,y%d' % (i, i) for i in range(n)), 'netprop k%d' % n])
    for k in range(60 if q else 900):
        n1, n2 = r.randint(2, 7), r.randint(2, 6)
        A = rand_labels(r, n1); B = rand_labels(r, n2) if r.random() < .7 else (A + ['z%d' % i for i in range(9)])[:n2]
        E = [(a, b) for a in A for b in B if r.random() < r.choice([.3, .6, .9])] or [(A[0], B[0])]
        E += [(a, B[0]) for a in A if not any(e[0] == a for e in E)] + [(A[0], b) for b in B if not any(e[1] == b for e in E)]
        E = list(dict.fromkeys(E)); r.shuffle(E)
        f = 'file a %sb %s' % (r.choice('ts'), ' '.join('%s,%s,%d' % (a, b, r.randint(1, 4)) for a, b in E))
        inv = r.randrange(2)
        nodes = B if inv else A
        def parts():
            lab = [r.randrange(r.choice([1, 2, 3, len(nodes)])) for x in nodes]
            g = [[x for x, y in zip(nodes, lab) if y == m] for m in sorted(set(lab))]
            for x in g: r.shuffle(x)
            r.shuffle(g); return ' '.join(y for x in g for y in x + ['///'])
        S.append([f, 'file p sp ' + parts(), 'file q sp ' + parts(), 'bipartitemodularity a p %d' % inv, 'bipartitemodularity_w a p %d' % inv, 'mutualinfo p q', 'mutualinfo q p', 'mutualinfo p p'])
    for k in range(25 if q else 300):
        nm, ms, nt = r.randint(1, 4), r.randint(1, 5), r.choice([1, 4, 9])
        S.append(['modularbipart %d %d %d %d %s %d' % (nm, ms, nt, r.randint(1, nm * ms), r.choice(['0', '1', '0.7']), r.randrange(10**6))])
    S.append(['usage countlinks', 'usage nodeprop', 'usage netprop', 'usage lapspec', 'usage getgiant', 'usage netcompare', 'usage netcompare x', 'usage netrandomize', 'usage netrandomize x'])
    X.check('ProgTrace', S, '(programs)')


def c27(ctx):
    X = Programs(ctx, build(ctx, {k: UTILS[k] for k in ('lapspec', 'netprop')}), UFN)
    r, q = ctx.rng, ctx.quick
    inv = ['RowsSumToZero', 'FirstTraces', 'KnownSpectra']
    ctx.model_check('SpectrumMC', {'NN': 5 if q else 6, 'GEN': 'FALSE'}, invariants=inv, view='View')
    S = [s + ['lapspec a', 'netprop a'] for s in ctx.generate('SpectrumMC', {'NN': 4 if q else 5, 'GEN': 'TRUE'}, invariants=inv, view='View')]
    for k in range(120 if q else 2000):
        n = r.choice([2, 3, 4, 5, 6, 7, 8, 11, 14])
        f, E = netfile(r, 'a', n)
        S.append([f, 'lapspec a', 'netprop a'])
    for n in (2, 3, 5, 8, 12):            # paths, stars, rings, complete networks
        for E in ([(i, i + 1) for i in range(n - 1)], [(0, i) for i in range(1, n)], [(i, (i + 1) % n) for i in range(n)],
                  [(i, j) for i in range(n) for j in range(i)]):
            S.append(['file a sn ' + ' '.join('v%d,v%d' % e for e in E), 'lapspec a', 'netprop a'])
    for n in ((33, 40) if q else (32, 36, 40, 48, 60)):     # slow modes: long paths and rings, a path beside a star
        P = [(i, i + 1) for i in range(n - 1)]
        for E in ((P, P[:32] + [(n, n + i) for i in range(1, 5)]) if q else (P, P + [(n - 1, 0)], P[:32] + [(n, n + i) for i in range(1, 5)])):
            r.shuffle(E); S.append(['file a sn ' + ' '.join('v%d,v%d' % e for e in E), 'lapspec a', 'netprop a'])
    X.check('ProgTrace', S, '(spectra)')


# ------------------------------------------------------------------ scores
SCORES = {'links': 'reliability/main_reliability_links.c', 'links_gibbs': 'reliability/main_reliability_links_gibbs.c',
          'links_sparse': 'reliability/main_reliability_links_gibbs_sparse.c', 'links_k': 'reliability/main_reliability_links_k.c',
          'rebuild': 'reliability/main_reliability_reconstruct.c',
          'mb_and': 'multiblock/main_reliability_links_mb.c', 'mb_or': 'multiblock/main_reliability_links_mb_OR.c',
          'mb_gand': 'multiblock/main_reliability_links_mb_gibbs.c', 'mb_gor': 'multiblock/main_reliability_links_mb_gibbs_OR.c',
          'od': 'only_deg/main_only_degeneration_mb.c', 'god': 'only_deg/main_only_degeneration_mb_gibbs.c',
          'rec2': 'recommender/main_multi_recommend_2.c', 'reck': 'recommender/main_multi_recommend_k.c',
          'reckg': 'recommender/main_multi_recommend_k_gibbs.c', 'conflict': 'conflict/main_conflict.c'}


def frows(d, f): return rows(open(d + '/' + f).read()) if os.path.exists(d + '/' + f) else []


def srow(r, linked): return [r[1], r[2], linked, [fix(r[0])]] if len(r) == 3 else ['?', '?', -1, []]


def scores(kind, src):
    def f(d, out, a):
        if src == 'two': R = [srow(r, 0) for r in frows(d, 'missing.dat')] + [srow(r, 1) for r in frows(d, 'spurious.dat')]
        elif src == 'out': R = [srow(r, -1) for r in rows(out)]
        elif src == 'k': R = [(r + ['?', '?'])[:2] + [x, [fix(v) for v in r[2:]]] for x, n in ((0, 'unobserved_k.dat'), (1, 'observed_k.dat')) for r in frows(d, n)]
        else: R = [srow(r, -1) for r in frows(d, a[0] + src)]
        return {'ev': 'Scores', 'kind': kind, 'K': int(a[0]) if src == 'k' else 2, 'rows': R}
    return f


def predict(K):
    def f(d, out, a):
        t = out.split('>>> RESULTS')[-1].split()
        k = int(a[0]) if K is None else K
        w = 3 if K else 2 + k
        R = [t[i:i + w] for i in range(0, len(t), w)]
        return {'ev': 'Predict', 'K': k, 'rows': [(r + ['?', '?'])[:2] + [two(r[2:]) if K else [fix(x) for x in r[2:]]] for r in R]}
    return f


def two(x): return [1000000 - fix(x[0]), fix(x[0])] if len(x) == 1 else []


def e_conflict(d, out, a): return {'ev': 'Conflict', 'rows': [(r + ['?', '?'])[:2] + [two(r[2:])] for r in frows(d, 'link_scores.dat')]}


def e_rebuild(d, out, a): return {'ev': 'Rebuilt', 'rows': frows(d, 'net_reconstructed.dat')}


SFN = {'links': scores('mc', 'two'), 'links_gibbs': scores('gibbs', 'out'), 'links_sparse': scores('sparse', 'out'), 'links_k': scores('k', 'k'), 'rebuild': e_rebuild,
       'mb_and': scores('and', '.AND_scores'), 'mb_or': scores('or', '.OR_scores'), 'mb_gand': scores('gand', '.AND_scores'), 'mb_gor': scores('gor', '.OR_scores'),
       'od': scores('od', '.scores'), 'god': scores('god', '.scores'), 'rec2': predict(2), 'reck': predict(None), 'reckg': predict(None), 'conflict': e_conflict}


def c25(ctx):
    X = Programs(ctx, build(ctx, SCORES), SFN)
    r, q = ctx.rng, ctx.quick
    ctx.model_check('BlockModelMC', dict(NN=3, KINDS='{"mc","sparse","and","or","k"}', LINS='{0}', GEN='FALSE', EVERY='FALSE'),
                    invariants=['Incremental', 'NamesFree', 'Predictive', 'Labelings', 'States'])
    ctx.model_check('RecommendMC', dict(N1=2, N2=2, KK=2, EVERY='FALSE', GEN='FALSE'), invariants=['Incremental', 'Sides', 'NamesFree', 'Predictive', 'TwoStates'])
    S = []
    kinds = ['links', 'links_gibbs', 'links_sparse', 'mb_and', 'mb_or', 'mb_gand', 'mb_gor', 'od', 'god', 'links_k', 'rebuild']
    sep = lambda: r.choice('tsw')
    for k in range(66 if q else 660):
        kind = kinds[k % len(kinds)]
        name = 'a' if r.random() < .7 else 'a_rather_long_name_of_a_file_' + 'x' * r.choice([10, 60, 150, 190])
        while 1:
            n = r.choice([3, 4, 4, 5]) if kind != 'rebuild' else r.choice([3, 4, 6])
            labs = rand_labels(r, n) if r.random() < .5 else ['n%d' % i for i in range(n)]
            E = [(labs[i], labs[j]) for i in range(n) for j in range(i) if r.random() < r.choice([.4, .8])]
            if len({x for e in E for x in e}) == n and len(E) < n * (n - 1) // 2: break
        E = [e if r.random() < .5 else e[::-1] for e in E]
        if r.random() < .3: E.append(r.choice(E)[::-1])
        if r.random() < .2: E.append((labs[0], labs[0]))
        r.shuffle(E)
        seed = r.randrange(10**6)
        if kind == 'links_k':
            K = r.choice([2, 3])
            S.append(['file a %sw %s' % (sep(), ' '.join('%s,%s,%d' % (a, b, r.randrange(K)) for a, b in E)), 'links_k %d a %d' % (K, seed)])
        else:
            S.append(['file %s %sw %s' % (name, sep(), ' '.join('%s,%s' % e for e in E)), '%s %s %d' % (kind, name, seed)])
    for k in range(32 if q else 320):
        kind = ['rec2', 'reck', 'reckg', 'conflict'][k % 4]
        n1, n2 = r.choice([(3, 2), (2, 3), (3, 3), (3, 1), (4, 2), (2, 4)])
        A = rand_labels(r, n1)
        B = rand_labels(r, n2) if kind != 'conflict' and r.random() < .5 else (A[:r.choice([1, 2])] + ['z%d' % i for i in range(5)])[:n2]
        K = 2 if kind in ('rec2', 'conflict') else r.choice([2, 3])
        L = [(a, b) for a in A for b in B if r.random() < r.choice([.4, .7, 1])] or [(A[0], B[0])]
        # (sets of at most two elements: the steps of the chain alternate between two halves of the groupings)
        L += [(a, r.choice(B)) for a in A if n1 >= n2 and a not in {x[0] for x in L}] + [(r.choice(A), b) for b in B if n2 >= n1 and b not in {x[1] for x in L}]
        r.shuffle(L)
        f = 'file a %sr %s' % (sep(), ' '.join('%s,%s,%d' % (a, b, r.randrange(K)) for a, b in L))
        seed = r.randrange(10**6)
        if kind == 'conflict':
            if len({x[0] for x in L}) < 2 and len({x[1] for x in L}) < 2: L.append((A[0], B[-1]))
            S.append([f, 'conflict a %d' % seed]); continue
        Q = [r.choice(L) for i in range(r.choice([0, 1]))] + [(r.choice(A), r.choice(B)) for i in range(r.choice([1, 2, 4]))]
        if r.random() < .3 and n1 < 4: Q.append(('somebody', r.choice(B)))
        S.append([f, 'file q %sq %s' % (sep(), ' '.join('%s,%s' % x for x in Q)), '%s %sa q %d' % (kind, '' if kind == 'rec2' else '%d ' % K, seed)])
    S.append(['usage %s%s' % (k, a) for k in SCORES for a in ('', ' a') + ((' a q',) if 'rec' in k else ()) + ((' 2 a q',) if 'reck' in k else ())])
    X.check('ScoreTrace', S, '(programs)')


CHECKS = {'C25': c25, 'C26': c26, 'C27': c27}
