"""Generated names."""
from checks.common import *
from symot import solve as S
from symot import text as X
import contextlib
import importlib
import random
import time
import openmdao.api as om
from openmdao.core.component import _valid_var_name

PROP = 'C21'
TITLE = 'generated names'
LIMIT = 62 * 63 ** 4          # four digits with a leading underscore, five digits below '_'
ASSUMPTIONS = [
    'the counter of expressions is a non-negative integer below %d' % LIMIT,
    'truncated quotients of integers below 2^46 are exact in floating point',
    'names are compared as sequences of characters; OpenMDAO accepts letters, digits and '
    'underscores (confirmed with the real OpenMDAO for the name of every path)']
OUTSIDE = 'counters at and above %d, at which names repeat; names chosen by users' % LIMIT
BOUNDS = {'counters': 'every pair of integers 0 <= a, b < %d' % LIMIT,
          'expressions': 'every pair of expressions created by each of the listed pieces of '
                         'code, from every initial counter'}
ALLOWED = set('0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
z3 = S.z3


def module():
    return importlib.import_module('omtools.utils.gen_hex_name')


def real_name(n):
    return module().gen_hex_name(n)


class Base(object):
    kind = 'text'

    def run(self, seed, tier):
        out = Outcome()
        t0 = time.time()
        try:
            self.symbolic(out, seed)
        except E.Unencodable as e:
            out.inconclusive('not encodable: %s' % e)
        out.wall = time.time() - t0
        return out


def paths(fn, var):
    """[(outcome, condition)] of fn on a symbolic counter"""
    ex = X.Paths()
    return list(ex.run(lambda: fn(X.ZInt(var)), [var >= 0, var < LIMIT]))


def rename(conds, text, tag):
    """a second copy of a path, over other variables"""
    vs = {}

    def walk(e):
        for c in e.children():
            walk(c)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs[e.get_id()] = (e, z3.Int(str(e) + tag))
    for c in conds:
        walk(c)
    for c in text.chars:
        if not isinstance(c, str):
            walk(c.pos)
    pairs = list(vs.values())
    return ([z3.substitute(c, *pairs) for c in conds],
            X.Text([c if isinstance(c, str) else X.Char(c.table, z3.substitute(c.pos, *pairs))
                    for c in text.chars]))


class Injective(Base):
    id = 'names of different counters differ'

    def symbolic(self, out, seed):
        gen = X.encode(module())['gen_hex_name']
        out.functions.add('omtools.utils.gen_hex_name.gen_hex_name')
        a = z3.Int('a')
        ps = paths(gen, a)
        rng = random.Random(seed)
        good = []
        for (kind, r), pc in ps:
            out.paths += 1
            out.obligations += 1
            st, m = X.check(pc)
            n = m.eval(a, model_completion=True).as_long()
            if kind != 'ok':
                try:
                    real_name(n)
                except Exception as e:
                    return out.violate('no name for %d: %s' % (n, e), {'case': self.id, 'a': n})
                return out.inconclusive('symbolic execution raises %r, the code does not' % r)
            good.append((X.Text(X.chars(r)), pc))
        # the encoding and the code agree
        for _ in range(60):
            n = rng.choice([rng.randrange(LIMIT), rng.randrange(63 ** rng.randrange(1, 6))])
            n = min(n, LIMIT - 1)
            for t, pc in good:
                st, m = X.check(pc + [a == n])
                if st == 'sat':
                    out.conformance += 1
                    if X.value(t, m) != real_name(n):
                        return out.inconclusive('encoding gives %r for %d, the code %r'
                                                % (X.value(t, m), n, real_name(n)))
                    break
            else:
                return out.inconclusive('no path for %d' % n)
        b = z3.Int('a\'')
        for i, (t, pc) in enumerate(good):
            for u, qc in good[i:]:
                qc, u = rename(qc, u, "'")
                out.obligations += 1
                st, m = X.check(pc + qc + [a != b, X.same(t, u)])
                if st == 'unknown':
                    out.inconclusive('solver undecided')
                elif st == 'sat':
                    doc = {'case': self.id, 'a': m.eval(a, model_completion=True).as_long(),
                           'b': m.eval(b, model_completion=True).as_long()}
                    what = self.replay(doc)
                    if what:
                        return out.violate(what, doc)
                    out.inconclusive('not reproduced: %s' % doc)
        # each name is a name
        for t, pc in good:
            out.obligations += 1
            cs = [c for c in t.chars]
            bad = z3.Or(*([z3.Not(c.within(ALLOWED)) for c in cs if not isinstance(c, str)] +
                          [z3.BoolVal(not cs or any(isinstance(c, str) and c not in ALLOWED
                                                    for c in cs))]))
            st, m = X.check(pc + [bad])
            if st == 'sat':
                doc = {'case': self.id, 'a': m.eval(a, model_completion=True).as_long()}
                what = self.replay(doc)
                if what:
                    return out.violate(what, doc)
            if st == 'unknown':
                out.inconclusive('solver undecided')
            st, m = X.check(pc)
            n = m.eval(a, model_completion=True).as_long()
            what = self.replay({'a': n})
            out.conformance += 1
            if what:
                return out.violate(what, {'case': self.id, 'a': n})
        # just above the limit there are names that repeat (the query can be answered)
        ps = list(X.Paths().run(lambda: gen(X.ZInt(a)), [a >= 0, a <= LIMIT + 100]))
        for (k, t), pc in ps:
            for (l, u), qc in ps:
                if k == l == 'ok' and len(X.chars(t)) == len(X.chars(u)):
                    qc, u = rename(qc, X.Text(X.chars(u)), "'")
                    if X.check(pc + qc + [a != b, X.same(t, u)])[0] == 'sat':
                        out.twin += 1
        out.sample = '%d paths by number of digits; names repeat from %d on' % (len(good), LIMIT)

    def replay(self, doc):
        a = int(doc['a'])
        if 'b' in doc:
            b = int(doc['b'])
            if a != b and real_name(a) == real_name(b):
                return 'expressions %d and %d are both named %r' % (a, b, real_name(a))
            return None
        n = real_name(a)
        try:
            if not _valid_var_name(n):
                return 'OpenMDAO refuses the name %r of expression %d' % (n, a)
            with quiet():
                p = om.Problem()
                p.model.add_subsystem('comp_' + n, om.ExecComp(['y=x']),
                                      promotes_outputs=[('y', n)])
                p.setup()
        except Exception as e:
            return 'OpenMDAO refuses the name %r of expression %d: %s' % (n, a, e)
        return None


def abstract(n):
    return X.Text(['\0', X.Char(None, n.e if type(n) is X.ZInt else z3.IntVal(n)), '\0'])


def concrete(t, m):
    out, cs = '', list(X.chars(t))
    while cs:
        if cs[0] == '\0':
            out += real_name(m.eval(cs[1].pos, model_completion=True).as_long())
            cs = cs[3:]
        else:
            out += cs.pop(0)
    return out


@contextlib.contextmanager
def recorded(gen=None):
    """every Variable made meanwhile; with symbolic names if gen is given"""
    from omtools.core import variable as V
    made = []
    init = V.Variable.__init__

    def rec(self, *a, **k):
        init(self, *a, **k)
        made.append(self)
    mods = []
    import sys
    if gen is not None:
        old = module().gen_hex_name
        for k, m in list(sys.modules.items()):
            if (m is not None and k.startswith('omtools') and
                    getattr(m, 'gen_hex_name', None) is old):
                mods.append((m, old))
                m.gen_hex_name = gen
    count = V.Variable._count
    V.Variable.__init__ = rec
    try:
        yield V.Variable, made
    finally:
        V.Variable.__init__ = init
        V.Variable._count = count
        for m, old in mods:
            m.gen_hex_name = old


def write_all(g):
    x = g.declare_input('x', shape=(3,), val=1.)
    d = g.create_indep_var('d', shape=(3,), val=1.)
    y = x * x + d - 2 * x
    z = y / x ** 2 + x[0:3] * y[0:3]
    w = g.create_output('w', shape=(3,))
    w[0:2] = z[0:2]
    c = g.create_output('c', shape=(3,))
    c.define(c * .1 + z)
    return z


CODE = {
    'variables': lambda g: [None for _ in range(4)],
    'operators': lambda g: [f(g.declare_input('x'), g.declare_input('y'))
                            for f in (lambda a, b: a + b, lambda a, b: a * b, lambda a, b: a / b,
                                      lambda a, b: a - b, lambda a, b: a ** 2)],
    'operators of one expression': lambda g: [f(*[g.declare_input('x')] * 2)
                                              for f in (lambda a, b: a + b, lambda a, b: a * b,
                                                        lambda a, b: a / b, lambda a, b: a - b)],
    'functions': lambda g: [ot.sin(ot.exp(g.declare_input('x', shape=(3,), val=1.))),
                            ot.sum(g.declare_input('x', shape=(3,), val=1.)),
                            ot.pnorm(g.declare_input('x', shape=(3,), val=1.))],
    'outputs': write_all,
    'groups': lambda g: [write_all(ot.Group()), write_all(ot.Group()), ot.Group()],
    'implicit outputs': lambda g: [g.create_implicit_output('u'), g.create_implicit_output('v')],
    'conditional': lambda g: ot.if_else(g.declare_input('x'), g.declare_input('y'),
                                        g.declare_input('z')),
}


class Expressions(Base):
    """expressions made by one piece of code, counted from any number"""

    def __init__(self, name):
        self.name = name
        self.id = 'names of expressions: ' + name

    def make(self):
        from omtools.core.variable import Variable
        with quiet():
            g = ot.Group()
            if self.name == 'variables':
                return [Variable() for _ in range(4)]
            return CODE[self.name](g)

    def symbolic(self, out, seed):
        # names of different counters differ (the other case): a name is as good as its counter
        gen = abstract
        out.functions.add('omtools.core.variable.Variable.__init__')
        a = z3.Int('a')

        def go():
            with recorded(gen) as (V, made):
                V._count = X.ZInt(a)
                self.make()
                return [(v._id, v.name) for v in made]
        ex = X.Paths()
        for (kind, r), pc in ex.run(go, [a >= 0, a < LIMIT - 1000]):
            out.paths += 1
            st, m = X.check(pc)
            n = m.eval(a, model_completion=True).as_long()
            out.conformance += 1
            got = self.numbers(n)
            if got is None:
                return out.inconclusive('the counter of expressions is kept elsewhere')
            if kind != 'ok':
                return out.inconclusive('symbolic execution raises %r' % (r,))
            if got != [(concrete(i, m), concrete(j, m)) for i, j in r]:
                return out.inconclusive('symbolic and concrete names differ from counter %d' % n)
            out.twin += 1
            alts = []
            for i in range(len(r)):
                for j in range(i):
                    out.obligations += 1
                    alts.append(X.same(r[i][0], r[j][0]))
                    # names that code gave (not a user) differ as well
                    if any(type(r[t][1]) is X.Text for t in (i, j)):
                        alts.append(X.same(r[i][1], r[j][1]))
            st, m = X.check(pc + [z3.Or(*alts)])
            if st == 'unknown':
                out.inconclusive('solver undecided')
            elif st == 'sat':
                doc = {'case': self.id, 'a': m.eval(a, model_completion=True).as_long()}
                what = self.replay(doc)
                if what:
                    return out.violate(what, doc)
                out.inconclusive('not reproduced: %s' % doc)
            out.sample = '%d expressions from any counter' % len(r)

    def numbers(self, n):
        with recorded() as (V, made):
            if '_count' not in vars(V):
                return None
            V._count = n
            self.make()
            got = [(v._id, v.name) for v in made]
            if got and got[0][0] != real_name(n + 1):
                return None
            return got

    def replay(self, doc):
        got = self.numbers(int(doc['a']))
        ids = [i for i, _ in got]
        for k, i in enumerate(ids):
            if i in ids[:k]:
                return '%r identifies two expressions (counter from %s)' % (i, doc['a'])
        seen = set()
        for _, n in got:
            if n in seen and n not in ('x', 'y', 'z', 'd', 'w', 'c', 'u', 'v'):
                return '%r names two expressions (counter from %s)' % (n, doc['a'])
            seen.add(n)
        return None


# ---------------------------------------------------- models from a counter near every boundary
STARTS = sorted(set([-1, 0, 61, 62, 100, 63 ** 2 - 8, 63 ** 2 - 1, 63 ** 3 - 6, 63 ** 4 - 12,
                     63 ** 4 - 1, 5 * 63 ** 4, LIMIT - 400]))


def started(n, fn):
    def f(g):
        from omtools.core.variable import Variable
        Variable._count = n
        fn(g)
    return f


def same_registered(g):
    x = g.declare_input('x', shape=(2,))
    e = [ot.sin(x), ot.cos(x), x * x, x + x, ot.exp(x), x * x, ot.sin(x)]
    for i, u in enumerate(e):
        g.register_output('y%d' % i, u)
    g.register_output('t', e[0] * e[6] + e[2] * e[5] + (e[4] + e[3]))


def spec_same(ins):
    x = ins['x']
    s, c = emap(lambda t: t.sin(), x), emap(lambda t: t.cos(), x)
    ex = emap(lambda t: t.exp(), x)
    d = {'y0': s, 'y1': c, 'y2': x * x, 'y3': x + x, 'y4': ex, 'y5': x * x, 'y6': s}
    d['t'] = s * s + x * x * x * x + ex + x + x
    return d


def many(g):
    x = g.declare_input('x')
    for i in range(70):
        g.register_output('y%d' % i, x + float(i))


def cases(tier):
    out = [Injective()] + [Expressions(n) for n in CODE]
    for n in STARTS:
        out.append(Case('equal expressions under names of their own, counter %d' % n,
                        group(started(n, same_registered)), {'x': (2,)},
                        ['y%d' % i for i in range(7)] + ['t'], spec_same))
        out.append(Case('seventy expressions, counter %d' % n, group(started(n, many)),
                        {'x': (1,)}, ['y%d' % i for i in range(70)],
                        lambda ins: {'y%d' % i: ins['x'] + E.const(i) for i in range(70)},
                        history=1))
    return out
