"""Arithmetic operators."""
from checks.common import *

PROP = 'C02'
TITLE = 'arithmetic operators'
BOUNDS = dict(BOUNDS, shapes='(1,), (3,), (2,3), (2,1,2), (3,2,2,2)',
              constants='symbolic numbers and arrays (+, -, *, /), symbolic real exponents on '
                        'positive bases, and exponents -3..4, 1/2, 1/3, 1.5, -0.5 and arrays of '
                        'them',
              operands=', '.join(MODES) + ', one expression used twice')
ASSUMPTIONS = ASSUME
SHAPES = [(1,), (3,), (2, 3), (2, 1, 2), (3, 2, 2, 2)]

BIN = {
    'add': (lambda a, b: a + b, False),
    'sub': (lambda a, b: a - b, False),
    'mul': (lambda a, b: a * b, False),
    'div': (lambda a, b: a / b, True),
}


def const_case(id, shape, cshape, build, spec, dom=None, sample=None):
    """x an input, c a constant of the model; build(x, c), spec(x element, c element)"""
    inputs = {'x': shape, 'c': cshape}

    def fn(g, p):
        x = g.declare_input('x', shape=shape, val=np.full(shape, .7))
        g.register_output('y', build(x, p['c']))

    def sp(ins):
        c = raw(ins['c'])
        c = np.broadcast_to(c, shape)
        x = raw(ins['x'])
        o = obj(shape)
        for i in np.ndindex(*shape):
            o[i] = spec(x[i], c[i])
        return {'y': arr(o)}
    lo, hi = sample or ((.3, 2.), (.4, 1.8))
    return Case(id, pgroup(fn), inputs, ['y'], sp, params={'c': cshape},
                domain=(lambda ins: dom(ins['x'], ins['c'])) if dom else None,
                sample=lambda r: {'x': r.uniform(lo[0], lo[1], size=shape),
                                  'c': r.uniform(hi[0], hi[1], size=cshape)})


def cases(tier):
    out = []
    for name, (f, isdiv) in BIN.items():
        dom = (lambda a, b: nonzero(b)) if isdiv else None
        if isdiv:
            dom_div = dom
        for s in SHAPES:
            out.append(op_case('%s%s' % (name, s), f, {'a': s, 'b': s},
                               lambda a, b, f=f: emap(f, a, b), domain=dom,
                               sample=uni(.5, 2., s, s)))
        for s in ((1,), (2, 2)):
            combos = [(m, n) for m in MODES for n in MODES]
            if tier == 'quick' and s != (2, 2):
                combos = []
            for m, n in combos:
                if (m, n) == ('input', 'input'):
                    continue
                out.append(op_case('%s%s%s-%s' % (name, s, m, n), f, {'a': s, 'b': s},
                                   lambda a, b, f=f: emap(f, a, b), domain=dom,
                                   modes={'a': m, 'b': n}, sample=uni(1.5, 2.5, s, s)))
            # one expression in both places
            for m in MODES:
                out.append(op_case('%s%s-same-%s' % (name, s, m), lambda a, f=f: f(a, a), {'a': s},
                                   lambda a, f=f: emap(lambda t: f(t, t), a), mode=m,
                                   domain=(lambda a: nonzero(a)) if isdiv else None,
                                   sample=uni(1.5, 2.5, s)))
    for m in MODES:
        out.append(op_case('neg-%s' % m, lambda a: -a, {'a': (2, 2)},
                           lambda a: emap(lambda t: -t, a), mode=m))
        out.append(op_case('pos-%s' % m, lambda a: +a + 0, {'a': (2, 2)},
                           lambda a: emap(lambda t: t, a), mode=m))
    # constants
    nzc = lambda x, c: nonzero(c)
    nzx = lambda x, c: nonzero(x)
    CONST = {
        'x+c': (lambda x, c: x + c, lambda x, c: x + c, None),
        'x-c': (lambda x, c: x - c, lambda x, c: x - c, None),
        'x*c': (lambda x, c: x * c, lambda x, c: x * c, None),
        'x/c': (lambda x, c: x / c, lambda x, c: x / c, nzc),
    }
    for nm, (b, sp, d) in CONST.items():
        for s in SHAPES:
            out.append(const_case('%s%s-number' % (nm, s), s, (), b, sp, d))
            out.append(const_case('%s%s-array' % (nm, s), s, s, b, sp, d))
    RCONST = {
        'c+x': (lambda x, c: c + x, lambda x, c: c + x, None),
        'c-x': (lambda x, c: c - x, lambda x, c: c - x, None),
        'c*x': (lambda x, c: c * x, lambda x, c: c * x, None),
        'c/x': (lambda x, c: c / x, lambda x, c: c / x, nzx),
    }
    for nm, (b, sp, d) in RCONST.items():
        for s in SHAPES:
            out.append(const_case('%s%s-number' % (nm, s), s, (), b, sp, d))
    # literal constants of the types a user writes
    for c in (3, -2, 0.5, -1.25, 1e3):
        for nm, (b, sp, d) in list(CONST.items()) + list(RCONST.items()):
            out.append(op_case('%s-lit%r' % (nm, c), lambda x, b=b, c=c: b(x, c), {'x': (2, 2)},
                               lambda x, sp=sp, c=c: emap(lambda t: sp(t, E.lift(c)), x),
                               domain=(lambda x: nonzero(x)) if nm == 'c/x' else None,
                               sample=uni(.5, 2, (2, 2))))
    ia = np.array([[1, 2], [-3, 4]])
    for nm, (b, sp, d) in CONST.items():
        out.append(op_case('%s-intarray' % nm, lambda x, b=b: b(x, ia), {'x': (2, 2)},
                           lambda x, sp=sp: emap(lambda t, c: sp(t, c), x, ia)))
    # powers
    for s in SHAPES[:4]:
        out.append(const_case('x**c%s-number' % (s,), s, (), lambda x, c: x ** c,
                              lambda x, c: x ** c, lambda x, c: pos(x)))
        out.append(const_case('x**c%s-array' % (s,), s, s, lambda x, c: x ** c,
                              lambda x, c: x ** c, lambda x, c: pos(x)))
    for p in (0, 1, 2, 3, 4, 2.0, 0., -1, -2, -3, 0.5, 1.5, -0.5, 1. / 3, 2.5):
        frac = float(p) != int(p)
        dom = pos if frac else (nonzero if p < 0 else None)
        for s in ((1,), (2, 3)):
            out.append(op_case('pow%r%s' % (p, s), lambda x, p=p: x ** p, {'x': s},
                               lambda x, p=p: emap(lambda t: t ** E.lift(p), x), domain=dom,
                               sample=uni(.5, 2, s)))
    for m in MODES[1:]:
        for p in (2, 3, -1, 0.5):
            out.append(op_case('pow%r-%s' % (p, m), lambda x, p=p: x ** p, {'x': (2, 2)},
                               lambda x, p=p: emap(lambda t: t ** E.lift(p), x), mode=m,
                               domain=pos if p == .5 else nonzero, sample=uni(1.5, 2.5, (2, 2))))
    pa = np.array([[1., 2., 3.], [2., -1., 0.5]])
    out.append(op_case('pow-array', lambda x: x ** pa, {'x': (2, 3)},
                       lambda x: emap(lambda t, p: t ** p, x, pa), domain=pos,
                       sample=uni(.5, 2, (2, 3))))
    pz = np.array([0., 1., 2., 0.])
    out.append(op_case('pow-array-zeroth', lambda x: x ** pz, {'x': (4,)},
                       lambda x: emap(lambda t, p: t ** p, x, pz)))
    out.append(op_case('pow-int-array-zeroth', lambda x: x ** pz.astype(int), {'x': (4,)},
                       lambda x: emap(lambda t, p: t ** p, x, pz)))
    pi = np.array([3, 2, 1, 4])
    out.append(op_case('pow-int-array', lambda x: x ** pi, {'x': (4,)},
                       lambda x: emap(lambda t, p: t ** p, x, pi)))
    # operators chained, as users write them
    out.append(op_case('chain1', lambda a, b: 3 * a - b / 2 + (a - 1) * (b + 2) ** 2 - 4,
                       {'a': (2, 2), 'b': (2, 2)},
                       lambda a, b: emap(lambda a, b: 3 * a - b / 2 + (a - 1) * (b + 2) ** 2 - 4,
                                         a, b)))
    out.append(op_case('chain2', lambda a, b: (a * a - b) / (b * b + 1) - (a + b) / (1 + a ** 2),
                       {'a': (3,), 'b': (3,)},
                       lambda a, b: emap(lambda a, b: (a * a - b) / (b * b + 1)
                                         - (a + b) / (1 + a ** 2), a, b)))
    out.append(op_case('chain3', lambda a, b: 1 / (1 / a + 1 / b) - -a * 2 + (b - a) / (a * b),
                       {'a': (2,), 'b': (2,)},
                       lambda a, b: emap(lambda a, b: 1 / (1 / a + 1 / b) + 2 * a
                                         + (b - a) / (a * b), a, b),
                       domain=lambda a, b: pos(a, b), sample=uni(.5, 2., (2,), (2,))))
    return out
