"""Helpers to write cases."""
import itertools
import numpy as np

from symot import expr as E, arr as A
from symot.runner import Case, Outcome
from symot.model import setup_problem, quiet
import omtools.api as ot

ASSUME = [
    'real arithmetic: floating-point rounding is outside the claim; float constants are read as '
    'the simplest rational that rounds to them',
    'OpenMDAO 3.45.1 (setup, connections, vectors, linear solver) is trusted; its vector and '
    'jacobian assignment rules are modelled by stand-ins validated by concrete runs',
    'numpy functions applied to symbolic arrays are interpreted by their mathematical definition; '
    'every case is also run concretely and compared with its encoding',
]
OUTSIDE = ('shapes, operand counts and programs other than those enumerated; floating-point '
           'rounding, overflow and underflow; units; MPI; complex-step mode')
BOUNDS = {'input values': 'every real value in the domain of the operation',
          'history': 'two successive evaluations of one model instance (values and total '
                     'derivatives after each), both points symbolic'}

# how an operand of an operation came about
#   input   declared input                     indep  independent variable
#   expr    anonymous intermediate expression  named  registered before it is used
#   late    registered after it is used        elem   output assembled by index assignment
#   same    input that other expressions use too
MODES = ('input', 'indep', 'expr', 'named', 'late', 'elem')


def group(fn):
    """an omtools Group whose setup is fn(self) (or fn(self, params))"""
    class M(ot.Group):
        def setup(self):
            fn(self)
    return lambda: M()


def pgroup(fn):
    def make(params):
        class M(ot.Group):
            def setup(self):
                fn(self, params)
        return M()
    return make


def operand(g, n, s, mode, late):
    """(variable, map from the value set by the user to the value of the operand)"""
    v0 = np.full(s, 0.7)
    if mode == 'indep':
        return g.create_indep_var(n, shape=s, val=v0)
    x = g.declare_input(n, shape=s, val=v0)
    if mode == 'input':
        return x
    if mode == 'expr':
        return 2 * x + 1
    if mode == 'named':
        return g.register_output('u_' + n, 2 * x + 1)
    if mode == 'late':
        u = 2 * x + 1
        late.append(('u_' + n, u))
        return u
    if mode == 'elem':
        u = g.create_output('u_' + n, shape=s)
        w = 2 * x + 1
        if len(s) == 1:
            u[0:s[0]] = w
        else:
            u[tuple(slice(0, k) for k in s)] = w
        return u
    raise ValueError(mode)


def op_case(id, build, inputs, spec, domain=None, sample=None, mode='input', modes=None, **kw):
    """y = build(*operands) registered as 'y'

    inputs: {name: shape}; the operand made from input n is x (input, indep) or 2*x + 1.
    domain and spec are stated on the operands.
    """
    modes = modes or {n: mode for n in inputs}
    for n, s in inputs.items():
        if modes[n] == 'elem' and len(s) == 0:
            modes[n] = 'expr'

    def affine(n, v):
        return v if modes[n] in ('input', 'indep') else 2 * A.symarray(v) + 1

    def inv(n, v):
        v = np.asarray(v, float)
        return v if modes[n] in ('input', 'indep') else (v - 1) / 2

    def fn(g):
        late = []
        vs = [operand(g, n, s, modes[n], late) for n, s in inputs.items()]
        g.register_output('y', build(*vs))
        for n, u in late:
            g.register_output(n, u)

    c = Case(id, group(fn), inputs, ['y'],
             lambda ins: {'y': spec(*[affine(n, ins[n]) for n in inputs])},
             domain=(lambda ins: domain(*[affine(n, ins[n]) for n in inputs]))
             if domain else None,
             sample=(lambda rng: {n: inv(n, v) for n, v in zip(inputs, sample(rng))})
             if sample else None, **kw)
    c.form = (build, inputs, spec, domain, sample, modes, kw)
    return c


def emap(f, *arrs):
    """elementwise spec, plain loop"""
    arrs = [A.symarray(a) for a in arrs]
    shp = arrs[0].shape
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        out[i] = f(*[a.view(np.ndarray)[i] for a in arrs])
    return out.view(A.SymArray)


def els(a):
    return list(A.lift_arr(a).flat)


def raw(a):
    return A.lift_arr(a)


def obj(shape):
    return np.empty(shape, dtype=object)


def arr(o):
    return o.view(A.SymArray)


def ssum(xs):
    r = E.ZERO
    for x in xs:
        r = r + x
    return r


def sprod(xs):
    r = E.ONE
    for x in xs:
        r = r * x
    return r


def inside(lo, hi):
    return lambda *xs: [E.band(e > lo, e < hi) for x in xs for e in els(x)]


def pos(*xs):
    return [e > 0 for x in xs for e in els(x)]


def nonzero(*xs):
    return [E.bnot(E.eq(e, E.ZERO)) for x in xs for e in els(x)]


def uni(lo, hi, *shapes):
    return lambda r: [r.uniform(lo, hi, size=s) for s in shapes]
