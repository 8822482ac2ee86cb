"""Cyclic definitions."""
from checks.common import *
from symot.graphs import GraphCase, xvar
from checks.forms import forms

PROP = 'C15'
TITLE = 'cyclic definitions'
ASSUMPTIONS = ASSUME + [
    'a sweep over the components is one step of the iteration; the loop is cut at the defined '
    'output: everything that uses it sees a symbol, and the value computed for it is compared '
    'with the right-hand side at that symbol.  Agreement for every value of the symbol makes the '
    'fixed points of the model the solutions of the equation.',
    'convergence is shown only in the runs of the real model (contractions)']
OUTSIDE = ('definitions with more statements than stated; convergence of iterative solvers in '
           'general; orders that move more than the stated number of expressions')
BOUNDS = {'values': 'every value of inputs and of the iterated output',
          'graphs': 'every acyclic graph over 2 operations (3 in the thorough tier), each of which '
                    'may use the output and the ones before; every subset registered, registered '
                    'before or after define(); every order of set iteration',
          'forms': 'right-hand sides in which the output occurs 1 to 5 times, as both operands of '
                   'one operation, inside functions, powers, sums, products, index reads, '
                   'matrix products, subsystems; arrays of size 1 to 3; two and three outputs '
                   'defined through each other',
          'operations': 'forms of the operations of C01..C10 whose domain is everything with the '
                        'output as an operand',
          'derivatives': 'of every output with respect to every input and the iterated output'}


def loop(n, late=False, symb_right=True):
    """y.define(r); r and everything before is a symbolic graph over y and x"""
    def build(g, ch):
        x = g.declare_input('x', val=1.)
        y = g.create_output('y', val=.5)
        X, Y = xvar('x'), xvar('y')
        us, es, spec, reg = [], [], {}, []
        for i in range(n):
            terms, et = [], []
            for j in range(i):
                if ch('e%d_%d' % (i, j)):
                    terms.append(us[j])
                    et.append(es[j])
            if ch('y%d' % i):
                terms.append(y)
                et.append(Y)
            if not terms:
                u, e = x + i, X + i
            elif len(terms) == 1:
                u, e = terms[0] / 8 + x, et[0] / 8 + X
            else:
                u, e = ot.sum(*terms) / 8, ssum(et) / 8
            us.append(u)
            es.append(e)
            if ch('r%d' % i):
                reg.append((i, u))
                spec['u%d' % i] = [e]
        if not late:
            for i, u in reg:
                g.register_output('u%d' % i, u)
        if n > 1 and ch('uses y again'):
            y.define(us[-1] + y / 8)
            spec['y'] = [es[-1] + Y / 8]
        else:
            y.define(us[-1])
            spec['y'] = [es[-1]]
        if late:
            for i, u in reg:
                g.register_output('u%d' % i, u)
        # an expression over the output that is not part of its definition
        if ch('after'):
            g.register_output('z', y * 2 + us[0])
            spec['z'] = [2 * Y + es[0]]
        return spec
    return build


FORMS = {
    'half': (lambda y, x: 0.5 * y, lambda y, x: y / 2),
    'linear': (lambda y, x: y / 4 + x, lambda y, x: y / 4 + x),
    'repeated operand': (lambda y, x: (y + y) / 8 + x, lambda y, x: y / 4 + x),
    'square by product': (lambda y, x: y * y / 16 + x / 8, lambda y, x: y * y / 16 + x / 8),
    'square': (lambda y, x: y ** 2 / 16 + x / 8, lambda y, x: y * y / 16 + x / 8),
    'difference with itself': (lambda y, x: (y - y * x / 8) / 4, lambda y, x: (y - y * x / 8) / 4),
    'ratio': (lambda y, x: (y + 1) / (y * y + 4), lambda y, x: (y + 1) / (y * y + 4)),
    'inside functions': (lambda y, x: ot.sin(y) / 4 + ot.cos(y * x) / 8,
                         lambda y, x: y.sin() / 4 + (y * x).cos() / 8),
    'exponential': (lambda y, x: ot.exp(-y) / 4 + x, lambda y, x: (-y).exp() / 4 + x),
    'four uses': (lambda y, x: (y + x * y - y / 2 + 3 * y) / 32,
                  lambda y, x: (y + x * y - y / 2 + 3 * y) / 32),
    'five uses of a sum': (lambda y, x: ot.sum(y, x, y, y, x) / 8 + y / 8 + y * x / 16,
                           lambda y, x: (3 * y + 2 * x) / 8 + y / 8 + y * x / 16),
    'average': (lambda y, x: ot.average(y, x, y) / 2, lambda y, x: (2 * y + x) / 6),
    'cube of a sum': (lambda y, x: (y / 4 + x / 4) ** 3, lambda y, x: (y / 4 + x / 4) ** 3),
    'diamond': (lambda y, x: (lambda a: ot.sin(a) / 4 + a * a / 16)(y / 2 + x / 4),
                lambda y, x: (lambda a: a.sin() / 4 + a * a / 16)(y / 2 + x / 4)),
    'doubling diamonds': (lambda y, x: (lambda a: (lambda b: (b + b * a) / 16)(a + a * y / 4))(
        y / 4 + x / 4), lambda y, x: (lambda a: (lambda b: (b + b * a) / 16)(a + a * y / 4))(
            y / 4 + x / 4)),
    'does not use itself': (lambda y, x: x * 3 + 1, lambda y, x: x * 3 + 1),
}


def form(name, shape, before=True, indep=False):
    f, s = FORMS[name]
    n = int(np.prod(shape))

    def build(g, ch):
        mk = g.create_indep_var if indep else g.declare_input
        if before:
            x = mk('x', shape=shape, val=np.full(shape, .7))
            y = g.create_output('y', shape=shape, val=np.full(shape, .4))
        else:
            y = g.create_output('y', shape=shape, val=np.full(shape, .4))
            x = mk('x', shape=shape, val=np.full(shape, .7))
        y.define(f(y, x))
        g.register_output('z', y * x)
        X, Y = [xvar('x', i) for i in range(n)], [xvar('y', i) for i in range(n)]
        sp = {'y': [s(a, b) for a, b in zip(Y, X)], 'z': [a * b for a, b in zip(Y, X)]}
        if indep:
            sp['x'] = X
        return sp
    return build


def index_reads(g, ch):
    x = g.declare_input('x', shape=(3,), val=np.ones(3))
    y = g.create_output('y', shape=(3,), val=np.zeros(3))
    r = g.create_output('r', shape=(3,))
    r[0] = y[1] / 4 + x[0]
    r[1:3] = y[0:2] / 8
    y.define(r + x / 2)
    Y, X = [xvar('y', i) for i in range(3)], [xvar('x', i) for i in range(3)]
    R = [Y[1] / 4 + X[0], Y[0] / 8, Y[1] / 8]
    return {'y': [R[i] + X[i] / 2 for i in range(3)], 'r': R}


def jacobi(g, ch):
    """A y = b by Jacobi iteration, through a matrix product"""
    b = g.declare_input('b', shape=(3,), val=np.ones(3))
    m = g.declare_input('m', shape=(3, 3), val=np.ones((3, 3)))
    y = g.create_output('y', shape=(3,), val=np.zeros(3))
    w = ot.matvec(m, y)
    y.define((b - w) / 16)
    g.register_output('w', w)
    Y, B = [xvar('y', i) for i in range(3)], [xvar('b', i) for i in range(3)]
    W = [ssum([xvar('m', 3 * i + j) * Y[j] for j in range(3)]) for i in range(3)]
    return {'y': [(B[i] - W[i]) / 16 for i in range(3)], 'w': W}


def norms(g, ch):
    x = g.declare_input('x', shape=(2,), val=np.ones(2))
    y = g.create_output('y', shape=(2,), val=np.ones(2))
    n = ot.inner(y, x)
    y.define(ot.expand(n / 16, (2,)) * x / 4 + x / 2)
    Y, X = [xvar('y', i) for i in range(2)], [xvar('x', i) for i in range(2)]
    N = Y[0] * X[0] + Y[1] * X[1]
    return {'y': [N / 16 * X[i] / 4 + X[i] / 2 for i in range(2)]}


def two(order):
    """two outputs defined through each other"""
    def build(g, ch):
        x = g.declare_input('x', val=1.)
        y = g.create_output('y', val=.3)
        w = g.create_output('w', val=.2)
        X, Y, W = xvar('x'), xvar('y'), xvar('w')
        a = w / 8 + x
        if ch('y uses y'):
            a = a + y / 16
        ea = W / 8 + X + (Y / 16 if ch('y uses y') else 0)
        b = y * w / 16 + x / 4
        eb = Y * W / 16 + X / 4
        if order:
            y.define(a)
            w.define(b)
        else:
            w.define(b)
            y.define(a)
        if ch('z'):
            g.register_output('z', a * b + y)
            return {'y': [ea], 'w': [eb], 'z': [ea * eb + Y]}
        return {'y': [ea], 'w': [eb]}
    return build


def three(g, ch):
    x = g.declare_input('x', val=1.)
    a, b, c = [g.create_output(n, val=.3) for n in 'abc']
    A_, B, C, X = xvar('a'), xvar('b'), xvar('c'), xvar('x')
    a.define(b / 8 + c * c / 16 + x / 4)
    b.define(ot.sin(c) / 8 + a / 8)
    c.define((a + b) / 16 + c / 8)
    return {'a': [B / 8 + C * C / 16 + X / 4], 'b': [C.sin() / 8 + A_ / 8],
            'c': [(A_ + B) / 16 + C / 8]}


def through_subsystem(g, ch):
    x = g.declare_input('x', val=1.)
    y = g.create_output('y', val=.5)
    k = x * y / 4
    reg = ch('k registered')
    g.register_output('k', k)

    class G(ot.Group):
        def setup(self):
            y = self.declare_input('y', val=1.)
            k = self.declare_input('k', val=1.)
            self.register_output('s', k / 4 + y * y / 16)
    g.add_subsystem('sub', G(), promotes=['*'])
    s = g.declare_input('s', val=1.)
    y.define(s + x / 8)
    X, Y = xvar('x'), xvar('y')
    return {'y': [X * Y / 16 + Y * Y / 16 + X / 8], 'k': [X * Y / 4],
            's': [X * Y / 16 + Y * Y / 16]}


def inside_subsystem(g, ch):
    x = g.declare_input('x', val=1.)
    k = g.register_output('k', x * 2)

    class G(ot.Group):
        def setup(self):
            k = self.declare_input('k', val=1.)
            y = self.create_output('y', val=.5)
            y.define(y * k / 8 + k / 4 + y / 16)
            self.register_output('v', y * y)
    g.add_subsystem('sub', G(), promotes=['*'])
    y = g.declare_input('y', val=1.)
    v = g.declare_input('v', val=1.)
    g.register_output('z', y + v * k)
    X, Y = xvar('x'), xvar('y')
    return {'k': [2 * X], 'y': [X * Y / 4 + X / 2 + Y / 16], 'v': [Y * Y],
            'z': [Y + Y * Y * 2 * X]}


def beside(g, ch):
    """a loop, and expressions before, beside and after it that must not become feedback"""
    x = g.declare_input('x', val=1.)
    p = g.create_indep_var('p', val=.3)
    a = x * p
    b = a + x
    y = g.create_output('y', val=.4)
    c = y * a / 16
    if ch('early'):
        g.register_output('b', b)
    y.define(c + b / 4)
    d = b * y
    g.register_output('d', d + p)
    if not ch('early'):
        g.register_output('b', b)
    g.register_output('f', a * a)
    X, P, Y = xvar('x'), xvar('p'), xvar('y')
    B = X * P + X
    return {'p': [P], 'b': [B], 'y': [Y * X * P / 16 + B / 4], 'd': [B * Y + P],
            'f': [X * P * X * P]}


def of_form(f, k):
    """a definition that uses the output as an operand of a form"""
    build, inputs, spec = f[:3]
    names = list(inputs)
    at = k % len(names)
    sy = inputs[names[at]]

    def write(g, ch):
        ops, es = [], []
        for j, n in enumerate(names):
            s = inputs[n]
            num = int(np.prod(s))
            if j == at:
                y = g.create_output('y', shape=s, val=np.full(s, .4))
                ops.append(y)
                es.append(arr(np.array([xvar('y', i) for i in range(num)] + [None],
                                       dtype=object)[:-1].reshape(s)))
            else:
                ops.append(g.declare_input(n, shape=s, val=np.full(s, .7)))
                es.append(arr(np.array([xvar(n, i) for i in range(num)] + [None],
                                       dtype=object)[:-1].reshape(s)))
        v = build(*ops)
        e = raw(spec(*es))
        if v.shape == sy:
            y.define(v / 8)
            sp = {'y': [t / 8 for t in e.flat]}
        else:
            t = ot.sum(v) if int(np.prod(v.shape)) > 1 else ot.reshape(v, (1,))
            if sy != (1,):
                t = ot.expand(t, sy)
            y.define(t / 8)
            sp = {'y': [ssum(e.flat) / 8] * int(np.prod(sy))}
        if k % 3:
            g.register_output('z', v)
            sp['z'] = list(e.flat)
        return sp
    return write


def cases(tier):
    out = []
    for k, (id, f) in enumerate(forms(tier, 8, 24)):
        if f[3] is None and f[4] is None and id[:3] not in ('c08', 'c19'):
            out.append(GraphCase('operand of %s' % id, of_form(f, k), lambda i: False,
                                 cut=('y',), derivs=True, unused=False, contracts=False,
                                 base=1 if k % 2 else -1))
    for rev in (False, True):
        t = ' low first' if rev else ''
        every = lambda i: True
        for late in (False, True):
            for n in (1, 2) if tier == 'quick' else (1, 2, 3):
                out.append(GraphCase('loop of %d%s%s' % (n, t, ' registered after' if late else ''),
                                     loop(n, late), every if n < 2 else
                                     (lambda i: i in (1, 2, 3, 4)) if n == 2 else
                                     (lambda i: i in (1, 3, 5)),
                                     reverse=rev, cut=('y',), derivs=True))
        for k, f in FORMS.items():
            for i, sh in enumerate([(1,), (2,), (3,), (2, 2)]):
                if sh != (1,) and k == 'five uses of a sum' and False:
                    continue
                for before in (True, False):
                    out.append(GraphCase('%s %s%s%s' % (k, sh, t, '' if before else ' y first'),
                                         form(k, sh, before, indep=i % 2 == 1),
                                         lambda i: i in (1, 2, 4), reverse=rev, cut=('y',),
                                         derivs=True, base=1 if before else -1, unused=False))
        for nm, b, cut in (('index reads', index_reads, ('y',)), ('jacobi', jacobi, ('y',)),
                           ('inner product', norms, ('y',)), ('two outputs', two(True), ('y', 'w')),
                           ('two outputs, other order', two(False), ('y', 'w')),
                           ('three outputs', three, ('a', 'b', 'c')),
                           ('through a subsystem', through_subsystem, ('y',)),
                           ('inside a subsystem', inside_subsystem, ('y',)),
                           ('beside', beside, ('y',))):
            for free in ((1, 2, 3), (0, 4, 5), (2, 5, 6)):
                for base in (1, -1):
                    out.append(GraphCase('%s%s free %s base %d' % (nm, t, free, base), b,
                                         lambda i, f=free: i in f, reverse=rev, cut=cut, base=base,
                                         derivs=True, unused=False))
    return out
