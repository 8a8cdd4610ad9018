"""C31: the reader of the front end"""
import vlib
from part import rand_labels
from progc import Programs, UTILS, build, e_countlinks, num


def e_front(d, out, a): return {'v': ([num(x) for x in out.split()] + [-1] * 3)[:3]}


def c31(ctx):
    exes = build(ctx, {'countlinks': UTILS['countlinks']})
    exes['front'] = vlib.VERIF + '/harness/front.py'
    X = Programs(ctx, exes, {'front': e_front, 'countlinks': e_countlinks})
    r, q = ctx.rng, ctx.quick
    inv = ['NodesOk', 'LinksOk', 'BadOk', 'OrderOk']
    ctx.model_check('FrontEndMC', {'NL': 3 if q else 4, 'GEN': 'FALSE'}, invariants=inv)
    S = [s + ['front a'] for s in ctx.generate('FrontEndMC', {'NL': 2, 'GEN': 'TRUE'}, invariants=inv)]
    for k in range(150 if q else 3000):
        L = rand_labels(r, r.choice([1, 2, 4, 9, 30, 80]))
        if r.random() < .4: L += [x + 'x' for x in L] + [x[:1] for x in L if x]       # labels that begin alike
        F = [[r.choice(L), r.choice(L)] for _ in range(r.choice([1, 2, 5, 20, 200]))]
        F += [e[::-1] for e in F if r.random() < .2] + [e for e in F if r.random() < .2]
        r.shuffle(F)
        if r.random() < .2: F.insert(r.randrange(len(F) + 1), r.choice([[], ['u'], ['u', 'v', '1'], L[:1] * 3]))
        ok = all(len(e) == 2 for e in F)
        S.append(['file a %sl%s ' % (r.choice('tsw'), r.choice(['', 'x'])) + ' '.join(','.join(e) for e in F), 'front a'] + (['countlinks a'] if ok else []))
    X.check('FrontEndTrace', S, '(files)')


CHECKS = {'C31': c31}
