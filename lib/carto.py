"""C05: the netcarto program"""
import hashlib, json, os, random, re, subprocess, shutil, tempfile
import concurrent.futures as cf
import vlib
from part import rand_labels


def fix(x):
    x = float(x)
    if x != x: return 2000000001
    if abs(x) > 1900: return 2000000004
    return round(x * 1e6)


def parse(text):
    """printed modularities, and the lines after them"""
    L = text.split('\n')
    q, k = [], len(L)
    for i, x in enumerate(L):
        m = re.match(r'\s*# Modularity.*: (\S+)$', x)
        if m:
            q.append(fix(m.group(1))); k = i + 1
    body = L[k:] if q else []
    if body and body[-1] == '': body.pop()
    return q, [[f for f in x.split('\t') if f.strip()] for x in body]


class Runner:
    def __init__(self, ctx, exe):
        self.ctx, self.exe = ctx, exe

    def _go(self, d, args, stdin=None, fill='190'):
        e = dict(os.environ)
        e.update({'ASAN_OPTIONS': 'detect_leaks=0:exitcode=66:max_malloc_fill_size=1000000:malloc_fill_byte=' + fill, 'LC_ALL': 'C', 'VERIF_CLOCK': fill})
        try:
            p = subprocess.run([self.exe] + args, cwd=d, env=e, input=stdin, capture_output=True, timeout=120)
        except subprocess.TimeoutExpired:
            return None, '', 'no answer within 120 s'
        err = p.stderr.decode('latin-1')
        if p.returncode == 66 or p.returncode < 0:
            m = re.search(r'ERROR: AddressSanitizer[^\n]*', err)
            return None, '', 'exit %d %s' % (p.returncode, m.group(0)[:200] if m else '')
        return p.returncode, p.stdout.decode('latin-1'), err

    def script(self, s):
        """a script: first command 'input BIP WEIGHTED line line...', then 'run ARGS', 'roles ARGS', 'reload'"""
        d = tempfile.mkdtemp(dir=self.ctx.tmp)
        try:
            return self._script(s, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _script(self, s, d):
        ev = ['{"ev":"Reset"}']
        add = lambda **k: ev.append(json.dumps(k))
        base = []
        for c in s:
            t = c.split(' ')
            if t[0] == 'input':
                bip, w, unit = int(t[1]), int(t[2]), float(t[3])
                lines = [x.split(',') for x in t[4:]]
                with open(d + '/net', 'w') as f:
                    for x in lines:
                        y = x[:2] + ([repr(float(x[2]) * unit)] if w and len(x) > 2 else [])
                        f.write(('\t' if len(lines) % 2 else ' ').join(y) + '\n')
                base = (['-w'] if w else []) + (['-b'] if bip else []) + (['-t'] if bip == 2 else [])
                bad = any(len(x) < (3 if w else 2) for x in lines)
                if not bad:
                    ev.append(json.dumps({'ev': 'Input', 'bip': bip, 'lines': [[x[0], x[1], int(x[2]) if w else 1] for x in lines]}))
                continue
            how = t[1] if len(t) > 1 else 'ff'       # f: file, s: stream; input then output
            args = [a for a in t[2:] if a and not a.startswith('@')]
            fill = '190' if '@2' not in t else '65'
            a, sin = list(base) + args, None
            if how[0] == 'f': a += ['-f', 'net']
            else: a += ['-f', '-']; sin = open(d + '/net', 'rb').read()
            if t[0] == 'reload': a += ['-p', 'last']
            if t[0] == 'roles': a += ['-r']
            if how[1] == 'f': a += ['-o', 'out']
            if os.path.exists(d + '/out'): os.unlink(d + '/out')
            rc, out, err = self._go(d, a, sin, fill)
            if rc is None:
                add(ev='Crash', how=err); return ev
            text = open(d + '/out', encoding='latin-1').read() if how[1] == 'f' and os.path.exists(d + '/out') else out
            q, body = parse(text)
            if t[0] == 'bad':
                add(ev='BadInput', rc=rc, q=q, lines=body); continue
            key = ' '.join(base + args + [t[0]])
            h = hashlib.sha1(repr((q, body)).encode()).hexdigest()[:16]
            if t[0] == 'roles':
                rows = []
                for r in body[1:]:
                    if len(r) != 5: add(ev='Crash', how='unreadable table row'); return ev
                    rows.append({'label': r[0].strip(), 'mod': int(r[1]), 'z': fix(r[2]), 'pc': fix(r[3]), 'role': int(r[4][1:]) - 1})
                add(ev='Roles', rc=rc, q=q, rows=rows, key=key, out=h)
            elif t[0] == 'run':
                shutil.copy(d + '/out', d + '/last') if how[1] == 'f' else open(d + '/last', 'w', encoding='latin-1').write(text)
                add(ev='Run', rc=rc, q=q, lines=body, key=key, out=h)
            else:
                key += hashlib.sha1(open(d + '/last', 'rb').read()).hexdigest()[:8]
                add(ev='Reload', rc=rc, q=q, lines=body, key=key, out=h)
        return ev


def c05(ctx):
    exe = ctx.build(None, ('time', 'clock', 'getpid', 'gettimeofday', 'clock_gettime'), main_src=vlib.REPO + '/netcarto/main_netcarto.c', extra=['hwrap.c'])
    R = Runner(ctx, exe)
    ctx.model_check('NetcartoMC', dict(NN=3, WMAX=1, GEN='FALSE') if ctx.quick else dict(NN=3, WMAX=2, GEN='FALSE'), invariants=['Inv'])
    g = ctx.generate('NetcartoMC', dict(NN=3, WMAX=1 if ctx.quick else 2, GEN='TRUE'), invariants=['Inv'], action_constraint='Emit')
    S = []
    for s in g:
        bip, ls = s[0].split(' ', 1)
        S.append(['input %s 1 1 %s' % (bip, ls), 'run ff -c 0.5 -s 3', 'reload ff'])
    r = ctx.rng
    for k in range(45 if ctx.quick else 900):
        bip = r.choice([0, 0, 1, 2]); w = r.randrange(2)
        n = r.randint(2, 9)
        labs = rand_labels(r, n)
        if bip:
            t = r.randint(1, 6)
            T = rand_labels(r, t) if r.random() < .6 else (labs + rand_labels(r, 10))[:t]
            pe = r.choice([.3, .6, .9])
            E = [(a, b) for a in labs for b in T if r.random() < pe] or [(labs[0], T[0])]
            if bip == 2: E = [(b, a) for a, b in E]
        else:
            pe = r.choice([.2, .4, .8])
            E = [(labs[i], labs[j]) for i in range(n) for j in range(i) if r.random() < pe] or [(labs[0], labs[1])]
            E = [e if r.random() < .5 else e[::-1] for e in E]
            if r.random() < .15: E.append((labs[0], labs[0]))
            if r.random() < .15: E.append(r.choice(E))
        r.shuffle(E)
        wm = r.choice([1, 3, 3] if bip else [1, 3, 9])
        ls = ' '.join('%s,%s,%d' % (a, b, r.randint(1, wm)) if w else '%s,%s' % (a, b) for a, b in E)
        s = ['input %d %d %s %s' % (bip, w, r.choice(['1', '0.5', '0.1']), ls)]
        for _ in range(2):
            opt = '-c %s -s %d%s' % (r.choice(['0.5', '0.7', '0.9']), r.randint(1, 10**6), r.choice(['', ' -i 0.3', ' -i 2', ' -C 0', ' -C 1']))
            if r.random() < .1: opt = ''
            hw = r.choice(['ff', 'fs', 'sf', 'ss'])
            s += ['run %s %s' % (hw, opt), 'reload %s' % r.choice(['ff', 'fs', 'ss']), 'run %s %s @2' % (r.choice(['ff', 'ss']), opt)]
            if r.random() < .7: s.append('roles %s %s' % (r.choice(['ff', 'fs']), opt))
        S.append(s)
    # short searches, whose result depends on every draw
    for k in range(12 if ctx.quick else 200):
        n = r.randint(12, 20)
        E = [(i, j) for i in range(n) for j in range(i) if r.random() < .3]
        s = ['input 0 0 1 ' + ' '.join('n%d,n%d' % e for e in E)]
        for _ in range(3):
            opt = '-c 0.01 -i 0.02 -s %d' % r.randint(1, 10**6)
            s += ['run ff ' + opt, 'run fs %s @2' % opt, 'reload ff', 'roles ff ' + opt, 'roles fs %s @2' % opt]
        S.append(s)
    for k in range(6):
        w = k % 2
        L = ['a,b,1', 'b,c,1', 'c,d,2']
        L[k // 2] = 'a,b' if w else 'a'
        if not w: L = [','.join(x.split(',')[:2]) for x in L]
        S.append(['input %d %d 1 %s' % (r.randrange(3), w, ' '.join(L)), 'bad ff', 'bad ss'])
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(R.script, S))
    ctx.check_traces('NetcartoTrace', exe, S, results=res, rerun=lambda i: R.script(S[i]))


CHECKS = {'C05': c05}
