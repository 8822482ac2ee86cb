"""Whole programs."""
from checks.common import *
from symot.programs import Program, draw, text, OPS, GROUPED
from checks.forms import forms, late_form
from checks import siblings

PROP = 'C13'
TITLE = 'programs'
ASSUMPTIONS = ASSUME
BOUNDS = dict(BOUNDS,
              programs='600 programs (4000 in the thorough tier) of 2..9 statements over 1..3 '
                       'inputs drawn from %d statement forms with a fixed seed; every one decided '
                       'for all input values' % len(OPS),
              registration='each program with its outputs registered at once, at the end, '
                           'backwards or mixed; random subsets registered',
              forms='forms of the operations of C01..C10 and C19 with operands that are '
                    'registered after they are read, or never',
              pairs='every pair of a first and a second statement form that fit together')


def program_case(id, p, **kw):
    def fn(g):
        p.write(g)
    sh = {n: s for n, s, _ in p.inputs}
    used = set()
    k = len(p.inputs)

    def need(i):
        if i not in used:
            used.add(i)
            if i >= k:
                for a in p.body[i - k][1]:
                    need(a)
    for i in p.registered:
        need(k + i)
    # an input that no registered output needs is not part of the model, an independent variable is
    sh = {n: s for j, (n, s, kind) in enumerate(p.inputs) if j in used or kind == 'indep'}
    c = Case(id, group(fn), sh, sorted(p.registered.values()),
             lambda ins: p.meaning({n: ins[n] if n in ins else A.fresh('unused_' + n, s)
                                    for n, s, _ in p.inputs}),
             sample=lambda rng: {n: rng.uniform(-1, 1, size=s) for n, s in sh.items()}, **kw)
    c.note = text(p)
    return c


def cases(tier):
    out = []
    # every pair of forms
    seen = 0
    for a in OPS:
        for b in OPS:
            p = pair(a, b)
            if p is not None:
                out.append(program_case('%s then %s' % (a, b), p, history=1))
    for k, (id, f) in enumerate(forms(tier)):
        for j in ((k,) if tier == 'quick' else (0, 1, 2)):
            out.append(late_form('form %s %s' % (('unregistered', 'operands late', 'all late')[j % 3],
                                                 id), f, j))
    for f, vs in siblings.variants().items():
        for i in range(len(vs)):
            j = (i + 1) % len(vs)
            out.append(siblings.together(f, [vs[i], vs[j]]))
            if vs[i][2] == vs[j][2]:
                out.append(siblings.together(f, [vs[i], vs[j]], True))
        same = [v for v in vs if v[2] == vs[0][2]]
        if len(same) > 2 and f not in ('functions',):
            out.append(siblings.together(f, same, True))
    n = 600 if tier == 'quick' else 4000
    for k in range(n):
        rng = np.random.default_rng(7000 + k)
        p = draw(rng, 2 + k % 8, cheap=k % 3 > 0)
        out.append(program_case('program %d' % k, p))
    return out


def pair(a, b):
    """x0, x1 inputs; u = a(...), y = b(u, ...); y registered, u as well for every second pair"""
    shapes = [(1,), (3,), (2, 3), (3, 2), (2, 2), (2,), (6,)]
    na, oka = OPS[a][:2]
    nb, okb = OPS[b][:2]
    for sa in itertools.product(shapes, repeat=na):
        if not oka(*sa):
            continue
        s = tuple(OPS[a][3](*[A.fresh('q', t) for t in sa]).shape)
        if nb == 1:
            if okb(s):
                ins = [('x%d' % i, t, 'input') for i, t in enumerate(sa)]
                return Program(ins, [(a, list(range(na))), (b, [na])],
                               {0: 'u', 1: 'y'} if (len(a) + len(b)) % 2 or a in GROUPED else {1: 'y'},
                               'once' if len(a) % 2 else 'backwards')
        else:
            for ts in itertools.product(shapes, repeat=nb - 1):
                if okb(*((s,) + ts)):
                    ins = [('x%d' % i, q, 'input') for i, q in enumerate(sa)]
                    ins += [('z%d' % i, q, 'indep' if i else 'input') for i, q in enumerate(ts)]
                    zs = list(range(na, na + nb - 1))
                    return Program(ins, [(a, list(range(na))), (b, [len(ins)] + zs)],
                                   {0: 'u', 1: 'y'} if (len(a) + len(b)) % 2 or a in GROUPED
                                   else {1: 'y'}, 'once' if len(a) % 2 else 'backwards')
    return None
