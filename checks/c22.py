"""Models are independent, can be set up again and evaluated again."""
import importlib
import re

from checks.common import *
from symot.histories import HistoryCase, Side, ImplicitSide
from symot import programs as P
from checks import siblings
import openmdao.api as om

PROP = 'C22'
TITLE = 'histories of set-ups, evaluations and linearizations'
ASSUMPTIONS = ASSUME
OUTSIDE = ('histories longer than the bounds, more than two models, more than three set-ups of a '
           'model; changes of options between set-ups other than those listed')
BOUNDS = {
    'histories': 'every sequence of set-ups (at most two of each model, three for the models that '
                 'change), evaluations at new symbolic inputs and linearizations of one or two '
                 'models: length 5 (quick) and 6 (thorough), 6 and 7 for selected models; the next '
                 'action is a symbolic choice',
    'models': 'two or more of every kind of operation, random programs of up to 8 operations, nested '
              'groups, one class used twice in a model, derived classes, models that differ from '
              'set-up to set-up, implicit components',
    'pairs': 'two instances of a class; two models with the same kind of operation and names but '
             'other shapes, constants or axes; a class and one derived from it',
    'input values': 'every real value in the domain'}


# ------------------------------------------------------------------- borrowed single operations
def families(per):
    """{family: cases of the other checks}"""
    out = {}
    for m in ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11',
              'c19'):
        fam = {}
        for c in importlib.import_module('checks.' + m).cases('quick'):
            if type(c) is not Case or c.params or c.goals or not c.value \
                    or c.id.startswith('piecewise'):
                continue
            if m in ('c10', 'c11'):
                f = m
            else:
                f = m + ' ' + re.match(r'[^\s(\[]+', c.id).group(0)
            fam.setdefault(f, []).append(c)
        for f, cs in fam.items():
            # spread over the enumeration, small ones first
            cs = sorted(cs, key=lambda c: sum(int(np.prod(s)) for s in c.inputs.values()))
            cs = [c for c in cs if sum(int(np.prod(s)) for s in c.inputs.values()) <= 12] or cs[:1]
            n = per if m != 'c04' else max(1, per // 2)
            if m in ('c10', 'c11'):
                n = 4 * per
            step = max(1, len(cs) // n)
            out[f] = cs[step - 1::step][:n] if len(cs) > n else cs
    return out


def operations(tier):
    out = []
    fam = families(2 if tier == 'quick' else 5)
    for f, cs in fam.items():
        for k, c in enumerate(cs):
            s = Side.of(c)
            out.append(HistoryCase('twice %s: %s' % (f, c.id), [s, s],
                                   length=(5 if tier == 'quick' else 6) - (f[:3] == 'c19')))
        if len(cs) > 1:
            out.append(HistoryCase('other %s: %s | %s' % (f, cs[0].id, cs[1].id),
                                   [Side.of(cs[0]), Side.of(cs[1])],
                                   length=4 if tier == 'quick' else 6))
    return out


# ------------------------------------------------------------------- variants of one operation
def confusable(tier):
    """two models that differ in the shapes, axes, keys or constants of one operation"""
    out = []
    for f, vs in siblings.variants().items():
        n = len(vs)
        pairs = sorted(set((min(i, j), max(i, j)) for i in range(n) for j in ((i + 1) % n,)
                           if i != j)) if tier == 'quick' else itertools.combinations(range(n), 2)
        for i, j in pairs:
            a, b = siblings.single(f, vs[i]), siblings.single(f, vs[j])
            out.append(HistoryCase('variants %s: %s | %s' % (f, vs[i][0], vs[j][0]),
                                   [Side.of(a), Side.of(b)], length=4))
    return out


# ------------------------------------------------------------------- programs
CONSTS = (P.C23, P.C3)


def full(p, ins):
    """inputs nothing reads have no part in the meaning"""
    return {n: ins[n] if n in ins else np.zeros(s) for n, s, _ in p.inputs}


def progs(tier):
    rng = np.random.default_rng(2200)
    out = []

    def side(p, outside=False):
        sp = p.meaning
        make = group(lambda g: p.write(g) and None)
        if outside:
            # written into a group before it is set up
            def make():
                g = ot.Group()
                p.write(g)
                return g
        used = {a for _, args in p.body for a in args}
        return Side(make, {n: s for k, (n, s, _) in enumerate(p.inputs) if k in used},
                    list(p.registered.values()), lambda n, ins: sp(full(p, ins)), watch=CONSTS)
    n = 30 if tier == 'quick' else 120
    ps = [P.prune(P.draw(rng, int(rng.integers(2, 6 if tier == 'quick' else 9)), cheap=True))
          for _ in range(n)]
    for k, p in enumerate(ps):
        s = side(p)
        out.append(HistoryCase('program %d twice' % k, [s, s],
                               length=5 if k >= 4 else 6))
        if k < n // 3:
            s = side(p, True)
            out.append(HistoryCase('program %d outside of setup, twice' % k, [s, s], length=5))
    for k in range(0, n - 1, 2):
        out.append(HistoryCase('programs %d and %d' % (k, k + 1), [side(ps[k]), side(ps[k + 1])],
                               length=4 if tier == 'quick' else 5))
    return out


# ------------------------------------------------------------------- classes
def sq(e):
    return E.mul(e, e)


def classes(tier):
    out = []
    L = 6 if tier == 'quick' else 7

    class Base(ot.Group):
        factor = 2.

        def setup(self):
            x = self.declare_input('x', shape=(2,), val=np.ones(2))
            self.register_output('y', self.factor * x * x)

    class Inherits(Base):
        factor = 3.

    class Extends(Base):
        def setup(self):
            super().setup()
            z = self.declare_input('z', shape=(2,), val=np.ones(2))
            self.register_output('w', ot.sin(z) * 5)

    class Overrides(Base):
        def setup(self):
            x = self.declare_input('x', shape=(3,), val=np.ones(3))
            self.register_output('y', x + 4)

    class Third(Extends):
        def setup(self):
            super().setup()
            t = self.declare_input('t')
            self.register_output('q', t * t * t)

    class Mixin(object):
        def setup(self):
            super().setup()
            t = self.declare_input('t')
            self.register_output('q', 7 * t)

    class Mixed(Mixin, Base):
        def setup(self):
            super().setup()

    class Options(ot.Group):
        def initialize(self):
            self.options.declare('n', default=2)
            self.options.declare('k', default=1.)

        def setup(self):
            n, k = self.options['n'], self.options['k']
            x = self.declare_input('x', shape=(n,), val=np.ones(n))
            self.register_output('y', k * x * x + x)
            self.register_output('s', ot.sum(x))

    class Attributes(ot.Group):
        def __init__(self, c, **kw):
            super().__init__(**kw)
            self.c = c

        def setup(self):
            x = self.declare_input('x', shape=(2,), val=np.ones(2))
            self.register_output('y', x * self.c)

    x2 = {'x': (2,)}
    y = lambda f: (lambda n, i: {'y': emap(lambda e: f * sq(e), i['x'])})
    base = Side(Base, x2, ['y'], y(2))
    inh = Side(Inherits, x2, ['y'], y(3))
    ext = Side(Extends, dict(x2, z=(2,)), ['y', 'w'],
               lambda n, i: {'y': emap(lambda e: 2 * sq(e), i['x']),
                             'w': emap(lambda e: 5 * e.sin(), i['z'])})
    over = Side(Overrides, {'x': (3,)}, ['y'], lambda n, i: {'y': emap(lambda e: e + 4, i['x'])})
    third = Side(Third, dict(x2, z=(2,), t=(1,)), ['y', 'w', 'q'],
                 lambda n, i: {'y': emap(lambda e: 2 * sq(e), i['x']),
                               'w': emap(lambda e: 5 * e.sin(), i['z']),
                               'q': emap(lambda e: e * sq(e), i['t'])})
    mixed = Side(Mixed, dict(x2, t=(1,)), ['y', 'q'],
                 lambda n, i: {'y': emap(lambda e: 2 * sq(e), i['x']),
                               'q': emap(lambda e: 7 * e, i['t'])})
    opt = lambda n_, k: Side(lambda: Options(n=n_, k=k), {'x': (n_,)}, ['y', 's'],
                             lambda n, i: {'y': emap(lambda e: k * sq(e) + e, i['x']),
                                           's': arr(np.array([ssum(els(i['x']))], dtype=object))})
    c1, c2 = np.array([2., 3.]), np.array([5., -1.])
    att = lambda c: Side(lambda: Attributes(c), x2, ['y'],
                         lambda n, i: {'y': emap(lambda a, b: a * b, A.symarray(c), i['x'])},
                         watch=[c])
    named = dict(base=base, inherits=inh, extends=ext, overrides=over, third=third,
                 mixed=mixed)
    for n, s in named.items():
        out.append(HistoryCase('%s twice' % n, [s, s], length=L))
        if n != 'base':
            out.append(HistoryCase('base and %s' % n, [base, s], length=L - 1))
    out.append(HistoryCase('extends and third', [ext, third], length=L - 1))
    out.append(HistoryCase('options 2 and 3', [opt(2, 1.), opt(3, -2.)], length=L - 1))
    out.append(HistoryCase('options 1 and 2', [opt(1, 4.), opt(2, 4.)], length=L - 1))
    out.append(HistoryCase('attributes', [att(c1), att(c2)], length=L - 1))
    out.append(HistoryCase('one array for two models', [att(c1), att(c1)], length=L - 1))
    return out


# ------------------------------------------------------------------- nested
def nested(tier):
    out = []
    L = 5 if tier == 'quick' else 6

    class Part(ot.Group):
        def initialize(self):
            self.options.declare('k', default=1.)

        def setup(self):
            u = self.declare_input('u', shape=(2,), val=np.ones(2))
            self.register_output('v', self.options['k'] * u * u)

    class Pipe(ot.Group):
        def setup(self):
            x = self.declare_input('x', shape=(2,), val=np.ones(2))
            self.register_output('u', x + 1)
            self.add_subsystem('part', Part(k=3.), promotes=['*'])
            v = self.declare_input('v', shape=(2,), val=np.ones(2))
            self.register_output('y', v * 2)

    class Kept(ot.Group):
        """the part is made once and added at every set-up"""
        def __init__(self, **kw):
            super().__init__(**kw)
            self.part = Part(k=3.)

        def setup(self):
            x = self.declare_input('x', shape=(2,), val=np.ones(2))
            self.register_output('u', x + 1)
            self.add_subsystem('part', self.part, promotes=['*'])
            v = self.declare_input('v', shape=(2,), val=np.ones(2))
            self.register_output('y', v * 2)

    def s_pipe(n, i):
        v = emap(lambda e: 3 * sq(e + 1), i['x'])
        return {'v': v, 'y': emap(lambda e: 2 * e, v)}

    class Deep(ot.Group):
        """a part of a part that is kept"""
        def __init__(self, **kw):
            super().__init__(**kw)
            self.pipe = Pipe()

        def setup(self):
            t = self.declare_input('t', shape=(2,), val=np.ones(2))
            self.register_output('x', t * t)
            self.add_subsystem('pipe', self.pipe, promotes=['*'])

    def s_deep(n, i):
        return s_pipe(n, {'x': emap(sq, i['t'])})

    class Double(om.ExplicitComponent):
        def initialize(self):
            self.options.declare('of')
            self.options.declare('wrt')
            self.options.declare('by')
            self.options.declare('plus')

        def setup(self):
            o = self.options
            self.add_input(o['wrt'], shape=(2,))
            self.add_output(o['of'], shape=(2,))
            self.declare_partials(o['of'], o['wrt'], rows=range(2), cols=range(2), val=o['by'])

        def compute(self, inputs, outputs):
            o = self.options
            outputs[o['of']] = inputs[o['wrt']] * o['by'] + o['plus']

    def around(G):
        def make():
            g = G()
            g.add_subsystem('first', Double(of='u', wrt='x', by=1., plus=1.), promotes=['*'])
            g.add_subsystem('part', Part(k=3.), promotes=['*'])
            g.add_subsystem('last', Double(of='y', wrt='v', by=2., plus=0.), promotes=['*'])
            return g
        return make

    class Twins(ot.Group):
        def setup(self):
            x = self.declare_input('x', shape=(2,), val=np.ones(2))
            self.register_output('w', 2 * x)
            self.add_subsystem('a', Part(k=2.), promotes=[])
            self.add_subsystem('b', Part(k=5.), promotes=[])

    def s_twins(n, i):
        return {'w': emap(lambda e: 2 * e, i['x']), 'a.v': emap(lambda e: 2 * sq(e), i['a.u']),
                'b.v': emap(lambda e: 5 * sq(e), i['b.u'])}

    class Inline(ot.Group):
        def setup(self):
            self.create_indep_var('x', shape=(2,), val=np.ones(2))
            with self.create_group('g') as g:
                x = g.declare_input('x', shape=(2,))
                g.register_output('u', x * x)
            u = self.declare_input('u', shape=(2,))
            self.register_output('y', u + 1)

    pipe = Side(Pipe, {'x': (2,)}, ['v', 'y'], s_pipe)
    kept = Side(Kept, {'x': (2,)}, ['v', 'y'], s_pipe)
    twins = Side(Twins, {'x': (2,), 'a.u': (2,), 'b.u': (2,)}, ['w', 'a.v', 'b.v'], s_twins)
    deep = Side(Deep, {'t': (2,)}, ['v', 'y'], s_deep)
    omtop = Side(around(om.Group), {'x': (2,)}, ['v', 'y'], s_pipe)
    ottop = Side(around(ot.Group), {'x': (2,)}, ['v', 'y'], s_pipe)

    # optimization problems: what is declared to the driver stays, however often it is set up
    def define(g):
        x = g.create_indep_var('x', shape=(2,), val=np.array([.5, .25]), dv=True)
        w = g.create_indep_var('w', shape=(2,), val=np.ones(2))
        q = g.register_output('q', x * x + w)
        g.register_output('f', ot.sum(q * w))
        g.add_constraint('q', lower=.5, upper=4.)
        g.add_objective('f')

    def s_opt(n, i):
        q = emap(lambda a, b: a * a + b, i['x'], i['w'])
        return {'q': q, 'f': np.array([sum((a * b for a, b in zip(q.flat, i['w'].flat)), E.ZERO)],
                                      dtype=object)}

    class Opt(ot.Group):
        def setup(self):
            define(self)

    class KeptOpt(ot.Group):
        """its part is kept; the part is written inside of setup or outside"""
        inside = True

        def __init__(self, **kw):
            super().__init__(**kw)
            if self.inside:
                self.part = Opt()
            else:
                self.part = ot.Group()
                define(self.part)

        def setup(self):
            self.add_subsystem('part', self.part, promotes=['*'])

    class KeptOutside(KeptOpt):
        inside = False

    class VarsInside(ot.Group):
        """design variables of the part, constraint and objective of the model"""
        def __init__(self, **kw):
            super().__init__(**kw)
            self.part = ot.Group()
            x = self.part.create_indep_var('x', shape=(2,), val=np.ones(2), dv=True)
            self.part.create_indep_var('w', shape=(2,), val=np.ones(2))
            self.part.register_output('h', x * x)

        def setup(self):
            self.add_subsystem('part', self.part, promotes=['*'])
            h = self.declare_input('h', shape=(2,))
            w = self.declare_input('w', shape=(2,))
            q = self.register_output('q', h + w)
            self.register_output('f', ot.sum(q * w))
            self.add_constraint('q', lower=.5, upper=4.)
            self.add_objective('f')

    def outside_om(G):
        def make():
            part = ot.Group()
            define(part)
            g = G()
            g.add_subsystem('part', part, promotes=['*'])
            return g
        return make

    told = {'design variables': {'x': {}}, 'constraints': {'q': {'lower': .5, 'upper': 4.}},
            'objectives': {'f': {}}}
    for n, m in (('inside of setup', Opt), ('part inside of setup', KeptOpt),
                 ('part outside of setup', KeptOutside), ('of a part and of a model', VarsInside),
                 ('part of an OpenMDAO group', outside_om(om.Group))):
        s = Side(m, {'x': (2,), 'w': (2,)}, ['q', 'f'], s_opt, declared=told)
        out.append(HistoryCase('optimization problem %s' % n, [s], length=L))
    inline = Side(Inline, {'x': (2,)}, ['u', 'y'],
                  lambda n, i: {'u': emap(sq, i['x']), 'y': emap(lambda e: sq(e) + 1, i['x'])})
    for n, s in (('pipe', pipe), ('kept part', kept), ('two parts', twins),
                 ('inline group', inline), ('deep', deep), ('part of an OpenMDAO group', omtop),
                 ('parts added outside of setup', ottop)):
        out.append(HistoryCase('%s twice' % n, [s, s], length=L))
    out.append(HistoryCase('pipe and two parts', [pipe, twins], length=L - 1))
    return out


# ------------------------------------------------------------------- models that change
def changing(tier):
    """what a model is depends on how often it was set up"""
    out = []
    L = 6 if tier == 'quick' else 7

    def counted(fn):
        class M(ot.Group):
            count = 0

            def setup(self):
                self.count += 1
                fn(self, self.count)
        return M

    def factor(g, n):
        x = g.declare_input('x', shape=(2,), val=np.ones(2))
        g.register_output('y', (n + 1) * x)

    def extent(g, n):
        x = g.declare_input('x', shape=(n,), val=np.ones(n))
        g.register_output('y', x * x)

    def wiring(g, n):
        x = g.declare_input('x', shape=(2,), val=np.ones(2))
        if n % 2:
            u = g.register_output('u', x * x)
            g.register_output('y', u + x)
        else:
            g.register_output('y', ot.exp(x))

    def order(g, n):
        x = g.declare_input('x', shape=(2,), val=np.ones(2))
        a, b = x * x, ot.sin(x)
        if n % 2:
            g.register_output('u', a)
            g.register_output('y', b * a)
        else:
            g.register_output('u', b)
            g.register_output('y', b + a)

    def pieces(g, n):
        x = g.declare_input('x', shape=(2,), val=np.ones(2))
        y = g.create_output('y', shape=(2,))
        for k in range(2):
            y[k] = x[(k + n) % 2] * (k + 2)

    def loop(g, n):
        x = g.declare_input('x', shape=(2,), val=np.ones(2))
        for k in range(n):
            x = g.register_output('y%d' % (k + 1), x * x + 1)

    def part(g, n):
        g.register_output('u', g.declare_input('x', shape=(2,), val=np.ones(2)) * n)

        class Sub(ot.Group):
            def setup(self):
                u = self.declare_input('u', shape=(2,), val=np.ones(2))
                self.register_output('v', u * u * n)
        g.add_subsystem('sub%d' % n, Sub(), promotes=['*'])
        v = g.declare_input('v', shape=(2,), val=np.ones(2))
        g.register_output('y', v + n)

    def s_loop(n, i):
        r, x = {}, i['x']
        for k in range(n):
            x = emap(lambda e: sq(e) + 1, x)
            r['y%d' % (k + 1)] = x
        return r

    def s_pieces(n, i):
        o = np.empty((2,), dtype=object)
        for k in range(2):
            o[k] = raw(i['x'])[(k + n) % 2] * (k + 2)
        return {'y': arr(o)}

    x2 = {'x': (2,)}
    sides = {
        'factor': Side(counted(factor), x2, ['y'],
                       lambda n, i: {'y': emap(lambda e: (n + 1) * e, i['x'])}),
        'extent': Side(counted(extent), lambda n: {'x': (n,)}, ['y'],
                       lambda n, i: {'y': emap(sq, i['x'])}),
        'wiring': Side(counted(wiring), x2, lambda n: ['u', 'y'] if n % 2 else ['y'],
                       lambda n, i: {'u': emap(sq, i['x']), 'y': emap(lambda e: sq(e) + e, i['x'])}
                       if n % 2 else {'y': emap(lambda e: e.exp(), i['x'])}),
        'order': Side(counted(order), x2, ['u', 'y'],
                      lambda n, i: {'u': emap(sq, i['x']),
                                    'y': emap(lambda e: e.sin() * sq(e), i['x'])}
                      if n % 2 else {'u': emap(lambda e: e.sin(), i['x']),
                                     'y': emap(lambda e: e.sin() + sq(e), i['x'])}),
        'pieces': Side(counted(pieces), x2, ['y'], s_pieces),
        'loop': Side(counted(loop), x2, lambda n: ['y%d' % (k + 1) for k in range(n)], s_loop),
        'part': Side(counted(part), x2, ['v', 'y'],
                     lambda n, i: {'v': emap(lambda e: n * sq(n * e), i['x']),
                                   'y': emap(lambda e: n * sq(n * e) + n, i['x'])}),
    }
    for n, s in sides.items():
        out.append(HistoryCase('changing %s' % n, [s], length=L + 1, setups=3))
        out.append(HistoryCase('changing %s, twice' % n, [s, s], length=L, setups=3 if L > 6 else 2))
    return out


# ------------------------------------------------------------------- implicit
def implicit(tier):
    c16 = importlib.import_module('checks.c16')
    want = ['quadratic (1,)', 'quadratic (2,)', 'Kepler', 'linear system', 'nonlinear system',
            'state used three times', 'no inputs but the load', 'sum of the state',
            'norm of the state', 'exponential']
    cs = c16.cases(tier)
    pick = [c for c in cs if c.id in want]
    multi = [c for c in cs if len(c.states) == 2 and c.solve
             and sum(int(np.prod(s)) for s in c.inputs.values()) <= 8]
    pick += multi[:6 if tier == 'quick' else 16]
    out = []
    for c in pick:
        s = ImplicitSide(c)
        out.append(HistoryCase('implicit %s twice' % c.id, [s, s],
                               length=4 if tier == 'quick' else 5))
        out.append(HistoryCase('implicit %s' % c.id, [s], length=6 if tier == 'quick' else 7))
    for a, b in zip(pick[::2], pick[1::2]):
        out.append(HistoryCase('implicit %s | %s' % (a.id, b.id),
                               [ImplicitSide(a), ImplicitSide(b)],
                               length=4 if tier == 'quick' else 5))
    return out


# ------------------------------------------------------------------- searches
def searches(tier):
    """a search evaluated again: the bracket and the residual are those of the current inputs"""
    c17 = importlib.import_module('checks.c17')
    out = []
    for N in range(1, 4 if tier == 'quick' else 6):
        out.append(c17.one((1,), N, history=2))
        out.append(c17.one((2,), N, ends='scalar', history=2))
        out.append(c17.linear((1,), N, history=2))
        out.append(c17.linear((1,), N, history=3))
        out.append(c17.two((1,), (1,), N, history=2))
        out.append(c17.two((1,), (1,), N, ('y', 'x'), second=False, history=2))
    for c in out:
        c.id = 'search %s' % c.id
    return out


def cases(tier):
    return searches(tier) + operations(tier) + confusable(tier) + progs(tier) + classes(tier) + nested(tier) + changing(tier) + \
        implicit(tier)
