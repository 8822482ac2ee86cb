"""Conditional selection."""
from checks.common import *

PROP = 'C19'
TITLE = 'conditional selection'
ASSUMPTIONS = ASSUME
SHAPES = [(1,), (2,), (3,), (2, 2), (2, 3), (1, 3), (2, 1, 2)]
BOUNDS = dict(BOUNDS, shapes='branches of shapes %s, a scalar condition' % SHAPES,
              operands='%s; shared and repeated operands; nested conditionals' % ', '.join(MODES),
              conditions='every real value, zero selects the branch for true; the two evaluations '
                         'of a history may select different branches')


def sel(c, a, b):
    c = els(c)[0]
    return emap(lambda x, y: E.ite(c < 0, y, x), a, b)


def prog(id, inputs, outputs, fn, spec, **kw):
    return Case(id, group(fn), inputs, outputs, spec, **kw)


def cases(tier):
    out = []
    for s in SHAPES:
        ins = {'c': (1,), 'a': s, 'b': s}
        out.append(op_case('if_else %s' % (s,), ot.if_else, dict(ins), sel))
        out.append(op_case('if_else of expressions %s' % (s,),
                           lambda c, a, b: ot.if_else(c - 1, a * b, a + b), dict(ins),
                           lambda c, a, b: sel(c - 1, a * b, a + b)))
        out.append(op_case('same branches %s' % (s,), lambda c, a: ot.if_else(c, a, a),
                           {'c': (1,), 'a': s}, lambda c, a: a))
        out.append(op_case('used twice %s' % (s,),
                           lambda c, a, b: ot.if_else(c, a, b) * ot.if_else(c, b, a), dict(ins),
                           lambda c, a, b: a * b))
        out.append(op_case('absolute difference %s' % (s,),
                           lambda c, a, b: ot.if_else(c, a - b, b - a) + 2 * a, dict(ins),
                           lambda c, a, b: sel(c, a - b, b - a) + 2 * a))
    for m in MODES[1:]:
        for s in ((1,), (2,), (2, 2)):
            out.append(op_case('if_else %s %s' % (s, m), ot.if_else, {'c': (1,), 'a': s, 'b': s},
                               sel, mode=m))
    for ms in itertools.product(('input', 'expr', 'late'), repeat=3):
        out.append(op_case('if_else kinds %s' % (ms,), ot.if_else,
                           {'c': (1,), 'a': (2,), 'b': (2,)}, sel,
                           modes=dict(zip('cab', ms))))
    # condition and branches share an operand
    out.append(op_case('absolute value', lambda x: ot.if_else(x, x, -x), {'x': (1,)},
                       lambda x: sel(x, x, -x)))
    out.append(op_case('condition is the branch for false', lambda x, y: ot.if_else(x, y, x),
                       {'x': (1,), 'w': (1,)}, lambda x, y: sel(x, y, x)))
    out.append(op_case('clamp', lambda x: ot.if_else(x - 1, x * 0 + 1, ot.if_else(x + 1, x,
                                                                                 x * 0 - 1)),
                       {'x': (1,)},
                       lambda x: sel(x - 1, x * 0 + 1, sel(x + 1, x, x * 0 - 1))))
    out.append(op_case('condition by index', lambda x, a, b: ot.if_else(x[1], a, b),
                       {'x': (3,), 'a': (2,), 'b': (2,)},
                       lambda x, a, b: sel(arr(raw(x)[1:2].copy()), a, b)))
    out.append(op_case('nested', lambda c, d, a, b: ot.if_else(c, ot.if_else(d, a, b), a * b),
                       {'c': (1,), 'd': (1,), 'a': (2,), 'b': (2,)},
                       lambda c, d, a, b: sel(c, sel(d, a, b), a * b)))
    out.append(op_case('sum of selections', lambda c, d, a, b: ot.if_else(c, a, b) +
                       ot.if_else(d, b, a),
                       {'c': (1,), 'd': (1,), 'a': (2,), 'b': (2,)},
                       lambda c, d, a, b: sel(c, a, b) + sel(d, b, a)))
    out.append(op_case('reduction of a selection', lambda c, a, b: ot.sum(ot.if_else(c, a, b)),
                       {'c': (1,), 'a': (2, 2), 'b': (2, 2)},
                       lambda c, a, b: arr(np.array([ssum(els(sel(c, a, b)))], dtype=object))))

    def elements(g):
        x = g.declare_input('x', shape=(3,), val=np.ones(3))
        y = g.create_output('y', shape=(3,))
        for i in range(3):
            y[i] = ot.if_else(x[i], x[i] * 2, x[i] * x[i])

    def s_elements(ins):
        return {'y': emap(lambda v: E.ite(v < 0, v * v, v * 2), ins['x'])}
    out.append(prog('piecewise by elements', {'x': (3,)}, ['y'], elements, s_elements))

    def registered(g):
        c = g.declare_input('c', val=1.)
        a = g.declare_input('a', shape=(2,), val=np.ones(2))
        u = a * a
        y = ot.if_else(c, u, a)
        g.register_output('y', y)
        g.register_output('u', u)
        g.register_output('z', y * u)

    def s_registered(ins):
        u = ins['a'] * ins['a']
        y = sel(ins['c'], u, ins['a'])
        return {'y': y, 'u': u, 'z': y * u}
    out.append(prog('registered later', {'c': (1,), 'a': (2,)}, ['y', 'u', 'z'], registered,
                    s_registered))
    return out
