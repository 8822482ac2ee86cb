"""Elementwise functions."""
from checks.common import *

PROP = 'C01'
TITLE = 'elementary functions'

pos = lambda x: [e > 0 for e in els(x)]
inter = lambda x: [E.band(e > -1, e < 1) for e in els(x)]
nz = lambda f: (lambda x: [E.bnot(E.eq(f(e), E.ZERO)) for e in els(x)])

FUNCS = {
    'exp': (ot.exp, lambda t: t.exp(), None, (-2, 2)),
    'log': (ot.log, lambda t: t.log(), pos, (.1, 3)),
    'log10': (ot.log10, lambda t: t.log10(), pos, (.1, 3)),
    'sin': (ot.sin, lambda t: t.sin(), None, (-3, 3)),
    'cos': (ot.cos, lambda t: t.cos(), None, (-3, 3)),
    'tan': (ot.tan, lambda t: t.sin() / t.cos(), nz(lambda t: t.cos()), (-1.3, 1.3)),
    'sec': (ot.sec, lambda t: 1 / t.cos(), nz(lambda t: t.cos()), (-1.3, 1.3)),
    'cosec': (ot.cosec, lambda t: 1 / t.sin(), nz(lambda t: t.sin()), (.2, 2.9)),
    # cos(x) != 0 as well: the implementation may go through 1/tan
    'cotan': (ot.cotan, lambda t: t.cos() / t.sin(),
              lambda x: nz(lambda t: t.sin())(x) + nz(lambda t: t.cos())(x), (.2, 1.4)),
    'arcsin': (ot.arcsin, lambda t: t.arcsin(), inter, (-.9, .9)),
    'arccos': (ot.arccos, lambda t: t.arccos(), inter, (-.9, .9)),
    'arctan': (ot.arctan, lambda t: t.arctan(), None, (-3, 3)),
    'sinh': (ot.sinh, lambda t: (t.exp() - (-t).exp()) / 2, None, (-2, 2)),
    'cosh': (ot.cosh, lambda t: (t.exp() + (-t).exp()) / 2, None, (-2, 2)),
    'tanh': (ot.tanh, lambda t: (t.exp() - (-t).exp()) / (t.exp() + (-t).exp()), None, (-2, 2)),
    'sech': (ot.sech, lambda t: 2 / (t.exp() + (-t).exp()), None, (-2, 2)),
    'cosech': (ot.cosech, lambda t: 2 / (t.exp() - (-t).exp()),
               nz(lambda t: t.exp() - (-t).exp()), (.2, 2)),
    'cotanh': (ot.cotanh, lambda t: (t.exp() + (-t).exp()) / (t.exp() - (-t).exp()),
               nz(lambda t: t.exp() - (-t).exp()), (.2, 2)),
}
SHAPES = [(1,), (4,), (2, 3), (2, 1, 3), (3, 2, 2, 2)]
BOUNDS = dict(BOUNDS, shapes='%s; thorough adds (7,), (4,5), (2,2,2,2,2)' % SHAPES,
              operands='%s (non-input operands on shapes (1,) and (2,2))' % ', '.join(MODES))
ASSUMPTIONS = ASSUME


def cases(tier):
    out = []
    shapes = SHAPES + ([(7,), (4, 5), (2, 2, 2, 2, 2)] if tier == 'thorough' else [])
    for name, (f, spec, dom, rng_) in FUNCS.items():
        sp = lambda x, spec=spec: emap(spec, x)
        for s in shapes:
            out.append(op_case('%s%s' % (name, s), f, {'x': s}, sp, domain=dom,
                               sample=uni(*rng_, s)))
        for s in ((1,), (2, 2)):
            for m in MODES[1:]:
                if s == (1,) and m in ('late', 'elem') and tier == 'quick':
                    continue
                out.append(op_case('%s%s-%s' % (name, s, m), f, {'x': s}, sp, domain=dom, mode=m,
                                   sample=uni(*rng_, s)))
    # a function of a function
    for name, (f, spec, dom, rng_) in FUNCS.items():
        out.append(op_case('%s of sin' % name, lambda x, f=f: f(0.5 + 0.2 * ot.sin(x)),
                           {'x': (2,)},
                           lambda x, spec=spec: emap(lambda t: spec(.5 + .2 * t.sin()), x),
                           domain=(lambda x, dom=dom: dom(emap(lambda t: .5 + .2 * t.sin(), x)))
                           if dom else None))
    return out
