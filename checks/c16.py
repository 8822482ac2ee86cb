"""Implicit components."""
from checks.common import *
from symot.implicit import ImplicitCase, SCHEDULES
from checks.forms import forms
import omtools.api as ot

PROP = 'C16'
TITLE = 'implicit components'
BOUNDS = dict(states='1 to 3 (thorough: 4) states, each of 1 to 4 entries, at most 6 unknowns for the '
                     'linear solves',
              inputs='0 to 4 inputs, shared between residuals or not, plus one load per residual',
              residuals='listed families (polynomial, transcendental, reductions, products, reads and '
                        'assignments by index, inner subsystems) and seeded random expression '
                        'trees of up to 4 operations per residual',
              histories=' | '.join(SCHEDULES),
              values='all reals in the domain with a nonsingular matrix of partials',
              end_to_end='at one concrete solution per case: Newton and DirectSolver, and the '
                         "component's own linear solve, forward and reverse")
ASSUMPTIONS = ASSUME + ['numpy.linalg.solve and numpy.linalg.inv return the exact solution of a '
                        'nonsingular system (replaced by the adjugate)',
                        "OpenMDAO's Newton and linear solvers are exercised end to end at concrete "
                        'solutions only', 'no loops inside the component']


class SpecFns(object):
    """the functions residuals are written with, on symbolic arrays"""
    sin = staticmethod(lambda x: emap(lambda t: t.sin(), x))
    cos = staticmethod(lambda x: emap(lambda t: t.cos(), x))
    exp = staticmethod(lambda x: emap(lambda t: t.exp(), x))

    @staticmethod
    def sum(x):
        o = obj((1,))
        o[0] = ssum(els(x))
        return arr(o)

    @staticmethod
    def expand(x, shape):
        o = obj(shape)
        for i in np.ndindex(*shape):
            o[i] = els(x)[0]
        return arr(o)

    @staticmethod
    def matvec(m, x):
        m, x = raw(m), raw(x)
        o = obj((m.shape[0],))
        for i in range(m.shape[0]):
            o[i] = ssum([m[i, j] * x[j] for j in range(m.shape[1])])
        return arr(o)

    @staticmethod
    def matmat(m, x):
        m, x = raw(m), raw(x)
        o = obj((m.shape[0], x.shape[1]))
        for i in np.ndindex(*o.shape):
            o[i] = ssum([m[i[0], j] * x[j, i[1]] for j in range(m.shape[1])])
        return arr(o)

    @staticmethod
    def inner(a, b):
        o = obj((1,))
        o[0] = ssum([s * t for s, t in zip(els(a), els(b))])
        return arr(o)

    @staticmethod
    def transpose(a):
        return arr(raw(a).T.copy())

    @staticmethod
    def at(x, k):
        o = obj((1,))
        o[0] = els(x)[k]
        return arr(o)

    @staticmethod
    def put(g, name, shape, parts):
        o = obj(shape)
        for k, p in enumerate(parts):
            o[k] = els(p)[0]
        return arr(o)

    g = None


class OtFns(object):
    sin, cos, exp, sum = map(staticmethod, (ot.sin, ot.cos, ot.exp, ot.sum))
    matvec, matmat, inner, transpose = map(staticmethod, (ot.matvec, ot.matmat, ot.inner, ot.transpose))
    expand = staticmethod(lambda x, shape: ot.expand(x, shape))
    at = staticmethod(lambda x, k: x[k])

    def __init__(self, g):
        self.g = g

    @staticmethod
    def put(g, name, shape, parts):
        o = g.create_output(name, shape=shape)
        for k, p in enumerate(parts):
            o[k] = p
        return o


SP = SpecFns()


def imp(id, inputs, states, F, order=None, loads=True, pre=None, decl=None, late=False, val=None,
        consts=None, **kw):
    """F(fn, v) -> {state: expression}; the residual of state s is F_s - c_s

    order  the order in which residuals are defined; decl: in which states are created
    late   inputs are declared after the states
    consts {name: function of inputs}: variables an inner subsystem computes
    """
    allin = dict(inputs)
    for s, shp in states.items():
        if loads:
            allin['c_' + s] = shp

    def body(c):
        g = c.group
        v = {}

        def ins():
            for n, shp in allin.items():
                v[n] = g.declare_input(n, shape=shp, val=np.full(shp, .4))

        def sts():
            for n in decl or states:
                v[n] = g.create_implicit_output(n, shape=states[n],
                                                val=1 if val is None else val)
        if pre is not None:
            # an inner subsystem, added before anything that reads its outputs
            pre(g, v, ins)
        if late:
            sts()
            if pre is None:
                ins()
        else:
            if pre is None:
                ins()
            sts()
        R = F(OtFns(g), v)
        for n in order or states:
            v[n].define_residual(R[n] - v['c_' + n] if loads else R[n])

    def res(v):
        v = dict(v)
        for n, f in (consts or {}).items():
            v[n] = f(v)
        R = F(SP, v)
        return {n: arr(emap2(lambda a, b: a - b, R[n], v['c_' + n])) if loads else R[n]
                for n in states}
    return ImplicitCase(id, body, allin, states, res, **kw)


def emap2(f, a, b):
    a, b = raw(a), raw(b)
    assert a.shape == b.shape, (a.shape, b.shape)
    o = obj(a.shape)
    for i in np.ndindex(*a.shape):
        o[i] = f(a[i], b[i])
    return o


# ------------------------------------------------------------------------------- fixed families
def single():
    out = []
    for s in [(1,), (2,), (3,), (2, 2), (1, 2)]:
        out.append(imp('quadratic %s' % (s,), dict(a=s, b=s), dict(x=s),
                       lambda f, v: {'x': v['a'] * v['x']**2 + v['b'] * v['x']}))
    for sch in SCHEDULES:
        for up in ('auto', 'indep'):
            out.append(imp('cubic %s %s' % (sch, up), dict(a=(2,)), dict(x=(2,)),
                           lambda f, v: {'x': v['x']**3 + v['a'] * v['x']}, schedule=sch,
                           upstream=up))
    out += [
        imp('Kepler', dict(e=(1,)), dict(x=(1,)), lambda f, v: {'x': v['x'] - v['e'] * f.sin(v['x'])}),
        imp('Kepler (2, 2)', dict(e=(2, 2)), dict(x=(2, 2)),
            lambda f, v: {'x': v['x'] - v['e'] * f.sin(v['x'])}),
        imp('exponential', dict(k=(2,)), dict(x=(2,)),
            lambda f, v: {'x': f.exp(v['k'] * v['x']) + v['x']}),
        imp('no inputs but the load', {}, dict(x=(2,)), lambda f, v: {'x': v['x']**3 + v['x']}),
        imp('no inputs', {}, dict(x=(2,)), lambda f, v: {'x': v['x']**3 + v['x'] - 2.},
            loads=False, e2e=False),
        imp('linear', dict(a=(2,)), dict(x=(2,)), lambda f, v: {'x': v['a'] * v['x']}),
        imp('state used three times', dict(a=(1,)), dict(x=(1,)),
            lambda f, v: {'x': v['x'] * v['x'] + f.sin(v['x']) * v['a'] + 3. * v['x']}),
        imp('linear system', dict(A=(2, 2)), dict(x=(2,)), lambda f, v: {'x': f.matvec(v['A'], v['x'])}),
        imp('linear system 3', dict(A=(3, 3)), dict(x=(3,)),
            lambda f, v: {'x': f.matvec(v['A'], v['x'])}),
        imp('nonlinear system', dict(A=(2, 2)), dict(x=(2,)),
            lambda f, v: {'x': f.matvec(v['A'], v['x']) + v['x']**3}),
        imp('normal equations', dict(A=(2, 2), b=(2,)), dict(x=(2,)),
            lambda f, v: {'x': f.matvec(f.transpose(v['A']), f.matvec(v['A'], v['x']) - v['b'])}),
        imp('matrix equation', dict(A=(2, 2)), dict(x=(2, 2)),
            lambda f, v: {'x': f.matmat(v['A'], v['x'])}),
        imp('sum of the state', dict(a=(3,)), dict(x=(3,)),
            lambda f, v: {'x': v['a'] * v['x'] + f.expand(f.sum(v['x']), (3,))}),
        imp('norm of the state', dict(a=(2,)), dict(x=(2,)),
            lambda f, v: {'x': v['a'] * v['x'] + f.expand(f.inner(v['x'], v['x']), (2,))}),
        imp('scalar input for all entries', dict(a=(1,)), dict(x=(2, 2)),
            lambda f, v: {'x': f.expand(v['a'], (2, 2)) * v['x']**2}),
        imp('entries of the state', dict(a=(1,)), dict(x=(2,)),
            lambda f, v: {'x': f.put(f.g, 'r', (2,), [
                f.at(v['x'], 0)**2 + f.at(v['x'], 1), v['a'] * f.at(v['x'], 1)])}),
        imp('entries of the input', dict(a=(3,)), dict(x=(1,)),
            lambda f, v: {'x': f.at(v['a'], 0) * v['x']**2 + f.at(v['a'], 2) * v['x']}),
        imp('states before inputs', dict(a=(2,)), dict(x=(2,)),
            lambda f, v: {'x': v['a'] * v['x']**3}, late=True),
        imp('initial value', dict(a=(2,)), dict(x=(2,)),
            lambda f, v: {'x': v['a'] * v['x']**3}, val=np.array([3., -2.])),
        imp('output left unused inside', dict(a=(2,)), dict(x=(2,)), _unused),
    ]
    return out


def _unused(f, v):
    if f.g is not None:
        f.sin(v['a'] * v['x'])
    return {'x': v['a'] * v['x']**3}


def coupled():
    out = []
    S1, S2 = (1,), (2,)
    two = dict(x=S1, y=S1)
    fams = {
        'two coupled': (dict(a=S1, b=S1), two, lambda f, v: {
            'x': v['a'] * v['x']**2 + v['y'], 'y': v['b'] * v['y']**3 + v['x']}),
        'two sharing an input': (dict(a=S1), two, lambda f, v: {
            'x': v['a'] * v['x']**2 + v['y'], 'y': v['a'] * v['y'] + f.sin(v['x'])}),
        'two decoupled': (dict(a=S1, b=S1), two, lambda f, v: {
            'x': v['a'] * v['x']**3 + v['x'], 'y': v['b'] * v['y']**3 + v['y']}),
        'triangular': (dict(a=S1, b=S1), two, lambda f, v: {
            'x': v['a'] * v['x']**3 + v['x'], 'y': v['b'] * v['y'] + v['x'] * v['y']}),
        'crossed': (dict(a=S1), two, lambda f, v: {
            'x': v['a'] * v['y']**3 + v['y'], 'y': v['x'] * v['x']}),
        'arrays': (dict(a=S2), dict(x=S2, y=S2), lambda f, v: {
            'x': v['a'] * v['x'] + v['y']**2, 'y': v['y'] * v['x'] + v['a']}),
        'array and scalar': (dict(a=S2), dict(x=S2, y=S1), lambda f, v: {
            'x': v['a'] * v['x'] + f.expand(v['y'], (2,)), 'y': v['y'] * f.sum(v['x'])}),
        'matrix and vector': (dict(a=S2), dict(x=(2, 2), y=S2), lambda f, v: {
            'x': v['x']**2, 'y': f.matvec(v['x'], v['y']) + v['a']}),
        'three': (dict(a=S1, b=S1), dict(x=S1, y=S1, z=S1), lambda f, v: {
            'x': v['a'] * v['x'] + v['y'], 'y': v['y'] * v['z'] + v['b'], 'z': v['x'] * v['z']**2}),
        'three in a ring': (dict(a=S1), dict(x=S1, y=S1, z=S1), lambda f, v: {
            'x': v['x'] - f.sin(v['y']), 'y': v['y'] - f.cos(v['z']) * v['a'],
            'z': v['z'] - v['x']**2}),
    }
    for nm, (i, s, F) in fams.items():
        names = list(s)
        for od in ([names, names[::-1]] + ([names[1:] + names[:1]] if len(names) > 2 else [])):
            for dc in (names, names[::-1]):
                out.append(imp('%s, residuals of %s, created %s' % (nm, ','.join(od), ','.join(dc)),
                               i, s, F, order=od, decl=dc))
        out.append(imp('%s a0a1l0s0a1s0' % nm, i, s, F, schedule='a0a1l0s0a1s0'))
        out.append(imp('%s indep late' % nm, i, s, F, upstream='indep', late=True))

    def shared(f, v):
        t = v['a'] * v['x'] * v['y']
        return {'x': t + v['x'], 'y': t * t + v['y']}
    out.append(imp('shared subexpression', dict(a=S2), dict(x=S2, y=S2), shared))

    def twice(f, v):
        t = f.sin(v['x'])
        return {'x': t + v['x'] * t + t * t}
    out.append(imp('repeated subexpression', {}, dict(x=S2), twice))
    return out


def inner():
    out = []
    S1, S2 = (1,), (2,)

    def pre(g, v, ins):
        ins()
        with g.create_group('sys') as s:
            s.create_indep_var('k', val=3.)
            s.create_indep_var('m', shape=(2,), val=np.array([2., -1.]))
        v['k'] = g.declare_input('k')
        v['m'] = g.declare_input('m', shape=(2,))
    consts = {'k': lambda v: arr(np.array([E.const(3)], dtype=object)),
              'm': lambda v: arr(np.array([E.const(2), E.const(-1)], dtype=object))}
    out.append(imp('inner group of constants', dict(a=S1), dict(x=S1),
                   lambda f, v: {'x': v['k'] * v['x']**3 + v['a'] * v['x']}, pre=pre, consts=consts))
    out.append(imp('inner group of array constants', dict(a=S2), dict(x=S2),
                   lambda f, v: {'x': v['m'] * v['x']**3 + v['a'] * v['x']}, pre=pre,
                   consts=consts))
    out.append(imp('inner group of constants, two states', dict(a=S1), dict(x=S1, y=S1),
                   lambda f, v: {'x': v['k'] * v['x']**3 + v['y'], 'y': v['a'] * v['y'] + v['x']},
                   pre=pre, consts=consts))

    def pre2(g, v, ins):
        ins()

        class Sub(ot.Group):
            def setup(self):
                p = self.create_indep_var('p', val=7.)
                q = self.create_indep_var('q', val=2.)
                self.register_output('k', p * q)
        g.add_subsystem('R', Sub(), promotes=['*'])
        v['k'] = g.declare_input('k')
    out.append(imp('inner subsystem computing a constant', dict(a=S1), dict(x=S1),
                   lambda f, v: {'x': v['k'] * v['x'] + v['a'] * v['x']**2}, pre=pre2,
                   consts={'k': lambda v: arr(np.array([E.const(14)], dtype=object))}))
    return out + crossing()


def crossing():
    """subsystems inside the component that read its inputs, its states and registered
    expressions, with inputs declared before and after them, or by the subsystem only"""
    out = []
    S = (2,)

    def add(id, body, res, ins='ab', states='x', **kw):
        i = {n: S for n in list(ins) + ['c_' + s for s in states]}

        def whole(c):
            def inp(n, g=c.group):
                return g.declare_input(n, shape=S, val=np.full(S, .4))
            v = {s: c.group.create_implicit_output(s, shape=S, val=np.full(S, .4))
                 for s in states} if 'late' not in id else {}
            R = body(c, c.group, inp, v)
            for s in R:
                v[s].define_residual(R[s] - inp('c_' + s))
        out.append(ImplicitCase('inner: ' + id, whole, i, {s: S for s in states},
                                lambda v: {s: emap(lambda p, q: p - q, r, v['c_' + s])
                                           for s, r in res(v).items()}, **kw))

    def cube(a):
        return emap(lambda x: x * x * x, a)

    def mul(*a):
        return emap(lambda *t: _prod(t), *a)

    def _prod(t):
        r = t[0]
        for u in t[1:]:
            r = r * u
        return r

    def plus(*a):
        return emap(lambda *t: ssum(list(t)), *a)

    # how a subsystem is added: q = a * a + 3 * b of what it reads
    def made(how, g, inp, q, reads, f):
        def fill(s):
            s.register_output(q, f(*[inp(n, s) for n in reads]))
        if how == 'with':
            with g.create_group('s_' + q) as s:
                fill(s)
        elif how == 'object':
            s = ot.Group()
            fill(s)
            g.add_subsystem('s_' + q, s, promotes=['*'])
        elif how == 'class':
            class Sub(ot.Group):
                def setup(self):
                    fill(self)
            g.add_subsystem('s_' + q, Sub(), promotes=['*'])
        elif how == 'named':
            class Sub(ot.Group):
                def setup(self):
                    fill(self)
            g.add_subsystem('s_' + q, Sub(), promotes_inputs=list(reads), promotes_outputs=[q])
        elif how == 'nested':
            class Sub(ot.Group):
                def setup(self):
                    fill(self)

            class Outer(ot.Group):
                def setup(self):
                    self.add_subsystem('t_' + q, Sub(), promotes=['*'])
            g.add_subsystem('s_' + q, Outer(), promotes=['*'])
        return inp(q)

    for how in ('with', 'object', 'class', 'named', 'nested'):
        def f(a, b):
            return a * a + 3 * b

        def sf(a, b):
            return emap(lambda s, t: s * s + 3 * t, a, b)

        # inputs declared after the subsystem, which does not read them
        def body(c, g, inp, v, how=how):
            with g.create_group('k') as s:
                s.create_indep_var('k', shape=S, val=np.array([2., -1.]))
            k = inp('k')
            a, b = inp('a'), inp('b')
            return {'x': k * v['x'] + a * v['x']**3 + b}
        if how == 'with':
            add('inputs after it', body, lambda v: {'x': emap(
                lambda k, x, a, b: k * x + a * x * x * x + b,
                arr(np.array([E.const(2), E.const(-1)], dtype=object)), v['x'], v['a'], v['b'])})

        # it reads inputs the residual reads as well, declared before or after it
        for at in ('before', 'after', 'only it', 'one of them'):
            def body(c, g, inp, v, how=how, at=at):
                if at == 'before':
                    a, b = inp('a'), inp('b')
                if at == 'one of them':
                    a = inp('a')
                q = made(how, g, inp, 'q', 'ab', f)
                if at == 'after':
                    a, b = inp('a'), inp('b')
                r = v['x']**3 + q * v['x']
                if at in ('before', 'after'):
                    r = r + a * b
                if at == 'one of them':
                    r = r + a
                return {'x': r}

            def res(v, at=at):
                q = sf(v['a'], v['b'])
                r = plus(cube(v['x']), mul(q, v['x']))
                if at in ('before', 'after'):
                    r = plus(r, mul(v['a'], v['b']))
                if at == 'one of them':
                    r = plus(r, v['a'])
                return {'x': r}
            add('%s reads inputs declared %s' % (how, at), body, res)

        # it reads a state
        def body(c, g, inp, v, how=how):
            q = made(how, g, inp, 'q', 'ax', f)
            return {'x': q * v['x'] + v['x'] * inp('b')}
        add('%s reads a state' % how, body, lambda v: {'x': plus(
            mul(sf(v['a'], v['x']), v['x']), mul(v['x'], v['b']))})

        # it reads an expression the component registered
        def body(c, g, inp, v, how=how):
            t = g.register_output('t', inp('a') * v['x'])
            q = made(how, g, inp, 'q', 'tb', f)
            return {'x': q + t * v['x'] + v['x']}
        add('%s reads a registered expression' % how, body, lambda v: {'x': plus(
            sf(mul(v['a'], v['x']), v['b']), mul(v['a'], v['x'], v['x']), v['x'])})

        # two of them in a row, two states, each residual with its own inputs
        def body(c, g, inp, v, how=how):
            p = made(how, g, inp, 'p', 'ax', f)
            q = made(how, g, inp, 'q', 'py', f)
            return {'x': p + v['x'] * v['y'], 'y': q * v['y'] + inp('b')}
        add('%s twice, two states' % how, body, lambda v: {
            'x': plus(sf(v['a'], v['x']), mul(v['x'], v['y'])),
            'y': plus(mul(sf(sf(v['a'], v['x']), v['y']), v['y']), v['b'])}, states='xy',
            solve=False)

        # the states are created after it
        def body(c, g, inp, v, how=how):
            q = made(how, g, inp, 'q', 'ab', f)
            v['x'] = g.create_implicit_output('x', shape=S, val=np.full(S, .4))
            return {'x': v['x']**3 + q * v['x']}
        add('%s, late state' % how, body, lambda v: {'x': plus(
            cube(v['x']), mul(sf(v['a'], v['b']), v['x']))})
    return out


# ------------------------------------------------------------------------------- random residuals
def rand_case(i):
    rng = np.random.default_rng([16, i])
    ns = int(rng.integers(1, 4))
    shp = (1,) if ns == 3 else [(1,), (2,)][int(rng.integers(2))]
    ni = int(rng.integers(0, 4))
    states = {n: shp for n in ['x', 'y', 'z'][:ns]}
    inputs = {n: shp for n in ['a', 'b', 'd'][:ni]}
    names = list(states) + list(inputs)
    progs = {}
    for s in states:
        ops = []
        for _ in range(int(rng.integers(1, 5))):
            k = ['+', '-', '*', 'c', 'sin', 'sq', 'k'][int(rng.integers(7))]
            ops.append((k, int(rng.integers(100)), int(rng.integers(100)),
                        float(rng.integers(-3, 4)) or 1.5))
        progs[s] = ops

    def F(f, v):
        R = {}
        for s, ops in progs.items():
            pool = [v[n] for n in names]
            for k, i1, i2, c in ops:
                # the last result is used more often
                p = pool[-1] if i1 % 3 == 0 else pool[i1 % len(pool)]
                q = pool[i2 % len(pool)]
                pool.append({'+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q,
                             'c': lambda: c * p, 'sin': lambda: f.sin(p), 'sq': lambda: p**2,
                             'k': lambda: p + c}[k]())
            # a diagonal keeps the matrix of partials nonsingular at generic points
            R[s] = pool[-1] + 2.5 * v[s]
        return R
    order = [list(states)[j] for j in rng.permutation(ns)]
    decl = [list(states)[j] for j in rng.permutation(ns)]
    return imp('random %d' % i, inputs, states, F, order=order, decl=decl,
               schedule=list(SCHEDULES)[i % 2], upstream=['auto', 'indep'][(i // 2) % 2],
               late=bool(i % 3 == 0))


# ------------------------------------------------------------------------------- every operation
def form_case(id, form, k):
    """a state equal to the value of a form, of which the first operand is a state as well, or
    all operands are inputs"""
    build, inputs, spec, domain, sample, _ = form
    names = list(inputs)
    shape = A.lift_arr(spec(*[A.fresh(n, s) for n, s in inputs.items()])).shape
    loads = {'c_y': shape}
    states = {'y': shape}
    first = names[0]
    if k % 2:
        states = {first: inputs[first], 'y': shape}
        loads['c_' + first] = inputs[first]
    ins = dict({n: s for n, s in inputs.items() if n not in states}, **loads)

    def body(c):
        g = c.group
        v = {n: g.declare_input(n, shape=s, val=np.full(s, .4)) for n, s in ins.items()}
        for n, s in states.items():
            v[n] = g.create_implicit_output(n, shape=s, val=np.full(s, .4))
        f = build(*[2 * v[n] + 1 for n in names])
        v['y'].define_residual(v['y'] * 3 - f - v['c_y'])
        if k % 2:
            v[first].define_residual(v[first] ** 3 + v[first] - v['c_' + first])

    def ops(v):
        return [2 * A.symarray(v[n]) + 1 for n in names]

    def res(v):
        R = {'y': emap(lambda y, f, c: 3 * y - f - c, v['y'], spec(*ops(v)), v['c_y'])}
        if k % 2:
            R[first] = emap(lambda x, c: x * x * x + x - c, v[first], v['c_' + first])
        return R

    def draw(rng):
        r = {n: rng.uniform(-1, 1, size=s) for n, s in dict(ins, **states).items()}
        if sample:
            r.update({n: (np.asarray(x, float) - 1) / 2 for n, x in zip(names, sample(rng))})
        return r
    size = sum(int(np.prod(s)) for s in states.values())
    return ImplicitCase(id, body, ins, states, res, sample=draw,
                        domain=(lambda v: domain(*ops(v))) if domain else None,
                        solve=size <= 4, det=False, e2e=size <= 4 and not k % 2)


def operations(tier):
    out = []
    for k, (id, f) in enumerate(forms(tier, 8, 24)):
        for j in ((k,) if tier == 'quick' else (0, 1)):
            out.append(form_case('form %s %s' % (('of inputs', 'of a state')[j % 2], id), f, j))
    return out


def cases(tier):
    return operations(tier) + single() + coupled() + inner() + [rand_case(i) for i in range(60 if tier == 'quick' else 600)]
