"""Defaults, shapes and design variables."""
from checks.common import *
from symot import solve as S
from symot.model import Component, IndepVarComp, ExplicitComponent
from symot.arr import symbolic_numpy
from symot.programs import OPS, GROUPED, Program, draw, text, prune
import contextlib
import os
import time
import traceback
import openmdao.api as om

PROP = 'C18'
TITLE = 'defaults, shapes and design variables'
ASSUMPTIONS = ASSUME + [
    'values handed to OpenMDAO\'s add_input/add_output are recorded there and expanded to the '
    'declared shape as OpenMDAO does; each case is also set up with numbers and the values read '
    'back through get_val']
OUTSIDE = ('first uses other than those enumerated; initial values of outputs that are '
           'overwritten before anything reads them; units')
BOUNDS = {
    'defaults': 'every real value; given as scalar, array, nested list (also one that mixes an int with numbers), with a shape and without',
    'first use': 'every operation of the library (%d entries of the table of operations, shapes '
                 'to rank 3), programs drawn at random, index reads and assignments, repeated '
                 'operands, nested groups' % len(OPS),
    'design variables': 'every combination of up to 4 flags, alone and in nested groups'}


class Flag(object):
    """a truth value given by the user; forks where it is looked at"""

    def __init__(self, name):
        self.cond = E.lt(E.ZERO, E.var(name))

    def __bool__(self):
        return bool(self.cond)

    def __eq__(self, o):
        if o in (True, False):
            return bool(self.cond) == o
        return NotImplemented

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise E.Unencodable('hash of a flag')


class Recorder(object):
    """what components hand to OpenMDAO as values of their variables"""

    def __init__(self):
        self.got = {}
        self.keep = []

    def note(self, comp, name, val):
        self.keep.append(comp)
        self.got[id(comp), name] = val

    @contextlib.contextmanager
    def active(self):
        rec = self
        real = {n: getattr(Component, n) for n in ('add_input', 'add_output')}

        def patched(f):
            def g(comp, name, val=1.0, *a, **k):
                if val is None:
                    val = 1.0
                rec.note(comp, name, val)
                if _symbolic(val):
                    v = A.lift_arr(val)
                    val = np.zeros(v.shape) if v.shape else 0.
                return f(comp, name, val, *a, **k)
            return g
        for n, f in real.items():
            setattr(Component, n, patched(f))
        real_set = om.Problem.set_val

        def set_val(prob, name, val=None, **k):
            # an inner problem is initialised: its values are set again at each evaluation
            if _symbolic(val):
                v = A.lift_arr(val)
                val = np.zeros(v.shape) if v.shape else 0.
            return real_set(prob, name, val, **k)
        om.Problem.set_val = set_val
        try:
            yield
        finally:
            om.Problem.set_val = real_set
            for n, f in real.items():
                setattr(Component, n, f)


def _symbolic(v):
    if isinstance(v, (E.Sym, E.SymNum)):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object
    return isinstance(v, (list, tuple)) and any(_symbolic(x) for x in v)


def _nested(a, i=()):
    return E.SymNum(a[i]) if len(i) == a.ndim else [_nested(a, i + (k,))
                                                    for k in range(a.shape[len(i)])]


def given(shape, how, value):
    """keyword arguments of the declaration"""
    sym = isinstance(value, A.SymArray)
    if how == 'scalar':
        return dict(shape=shape, val=E.SymNum(value.view(np.ndarray)[()]) if sym else float(value))
    if how == 'bare scalar':
        return dict(val=E.SymNum(value.view(np.ndarray)[()]) if sym else float(value))
    if how in ('array', 'bare array'):
        v = value.copy()
    else:
        v = _nested(value.view(np.ndarray)) if sym else value.tolist()
        if 'mixed' in how:
            w = v
            while isinstance(w[0], list):
                w = w[0]
            w[0] = FIRST                  # an int, before numbers that need not be
    return dict(val=v) if how.startswith('bare') else dict(shape=shape, val=v)


FIRST = 2
HOW = ('scalar', 'array', 'list', 'bare array', 'bare list', 'mixed list', 'bare mixed list')


class DefaultCase(object):
    """make(kw, flags): a model whose variables are declared with kw[name]

    variables  {name: (shape, how the default is given)}
    names      {name: promoted name in the model}
    flags      names of truth values, each the dv mark of the variable it names
    extra      further design variables the model has
    outputs    variables that are outputs with an initial value
    """
    kind = 'defaults'

    def __init__(self, id, make, variables, names=None, flags=(), dvs=None, again=1, runs=True,
                 pre=None):
        self.id = id
        self.make = make
        self.variables = variables
        self.names = names or {n: n for n in variables}
        self.flags = list(flags)
        self.dvs = dvs or {f: f for f in flags}
        self.again = again
        self.runs = runs
        self.scales = ()

    def vshape(self, n):
        s, how = self.variables[n]
        return () if 'scalar' in how else s

    def expected(self, n, v):
        s, how = self.variables[n]
        o = np.empty(s, dtype=object)
        o[...] = A.lift_arr(v)
        if 'mixed' in how:
            o[(0,) * o.ndim] = E.const(FIRST)
        return o

    def model(self, vals, flags):
        kw = {n: given(s, how, vals[n]) for n, (s, how) in self.variables.items()}
        return self.make(kw, flags)

    # ------------------------------------------------------------- the real code with numbers
    def concrete(self, vals, flags):
        try:
            with quiet():
                p = om.Problem(model=self.model({n: np.array(v, float) for n, v in vals.items()},
                                                flags))
                for _ in range(self.again):
                    p.setup()
                p.final_setup()
                for when in ('after setup', 'after a run'):
                    for n, u in self.names.items():
                        want = np.empty(self.variables[n][0])
                        want[...] = vals[n]
                        if 'mixed' in self.variables[n][1]:
                            want[(0,) * want.ndim] = FIRST
                        got = np.array(p.get_val(u))
                        if got.shape != want.shape:
                            return '%s has shape %s %s, declared %s' % (u, got.shape, when,
                                                                       want.shape)
                        if n not in self.outs(p) or when == 'after setup':
                            bad = ~(np.abs(got - want) <= 1e-12 * (1 + np.abs(want)))
                            if bad.any():
                                return '%s is %s %s, its default is %s' % (
                                    u, got.tolist(), when, want.tolist())
                    if not self.runs:
                        break
                    p.run_model()
                have = self.dv_names(p)
                for f, u in self.dvs.items():
                    if (u in have) != bool(flags[f]):
                        return '%s is %sa design variable, its mark is %s' % (
                            u, '' if u in have else 'not ', bool(flags[f]))
                other = have - set(self.dvs.values())
                if other:
                    return 'design variables that nobody marked: %s' % sorted(other)
        except (Exception, SystemExit) as e:
            return 'the real code fails: %s: %s' % (type(e).__name__, e)
        return None

    def outs(self, p):
        """variables that are computed"""
        o = set()
        for c in p.model.system_iter(include_self=True, recurse=True, typ=Component):
            if not isinstance(c, IndepVarComp):
                for a in c._var_abs2meta['output']:
                    o.add(p.model._resolver.abs2prom(a, 'output'))
        return {n for n, u in self.names.items() if u in o}

    def dv_names(self, p):
        res = p.model._resolver
        out = set()
        for k, m in p.model.get_design_vars(recurse=True, use_prom_ivc=False).items():
            src = m.get('source', k)
            n = m.get('name', k)
            if src.startswith('_auto_ivc.'):
                out.add(n)
            else:
                out.add(res.abs2prom(src, 'output'))
        return out

    # ------------------------------------------------------------- symbolic
    def execute(self, vals, flags):
        rec = Recorder()
        with quiet(), rec.active(), symbolic_numpy():
            p = om.Problem(model=self.model(vals, flags))
            for _ in range(self.again):
                p.setup()
            p.final_setup()
        m = p.model
        res = m._resolver
        conns = m._conn_global_abs_in2out
        found = []
        for c in m.system_iter(include_self=True, recurse=True, typ=Component):
            n = len(c.pathname) + 1 if c.pathname else 0
            for io in ('input', 'output'):
                for a, meta in c._var_abs2meta[io].items():
                    if a.startswith('_auto_ivc.'):
                        continue
                    if io == 'input' and not conns[a].startswith('_auto_ivc.'):
                        continue
                    u = res.abs2prom(a, io)
                    found.append((u, a, tuple(meta['shape']), rec.got.get((id(c), a[n:]))))
        return found, self.dv_names(p), {type(c).__module__ + '.' + type(c).__name__ + '.setup'
                                         for c in rec.keep
                                         if type(c).__module__.startswith('omtools')}

    def run(self, seed, tier):
        out = Outcome()
        t0 = time.time()
        rng = np.random.default_rng(seed)
        vals = {n: rng.uniform(.5, 2., size=self.vshape(n)) for n in self.variables}
        flags = {f: bool(rng.random() < .5) for f in self.flags}
        out.conformance += 1
        bad = self.concrete(vals, flags)
        if bad:
            return out.violate(bad, self.doc(vals, flags))
        try:
            self.symbolic(out, vals, flags)
        except E.Unencodable as e:
            out.inconclusive('not encodable: %s' % e)
        out.wall = time.time() - t0
        return out

    def symbolic(self, out, vals0, flags0):
        sv = {n: A.fresh('default:' + n, self.vshape(n)) for n in self.variables}
        ex = E.Explorer(S.path_checker())

        def go():
            return self.execute(sv, {f: Flag('flag:' + f) for f in self.flags})
        for (kind, r), pc in ex.run(go, []):
            out.paths += 1
            if kind != 'ok':
                st, env = S.satisfiable(pc)
                v, f = self.point(env, sv)
                bad = self.concrete(v, f)
                if bad:
                    return out.violate(bad, self.doc(v, f))
                if os.environ.get('SYMOT_DEBUG'):
                    traceback.print_exception(type(r), r, r.__traceback__)
                out.inconclusive('symbolic execution raised %s: %s' % (type(r).__name__, r))
                continue
            found, have, fns = r
            out.functions |= fns
            pairs, labels = [], []
            seen = set()
            back = {}
            for n, u in self.names.items():
                back[u] = n
            for u, a, shape, val in found:
                n = back.get(u)
                if n is None:
                    continue
                if val is None:
                    out.inconclusive('value of %s not observed' % a)
                    continue
                seen.add(n)
                want = self.expected(n, sv[n])
                if shape != want.shape:
                    return self.report(out, '%s has shape %s, declared %s' % (a, shape, want.shape),
                                       vals0, flags0)
                got = np.empty(shape, dtype=object)
                v = A.lift_arr(val)
                if v.size == 1:
                    got[...] = v.reshape(-1)[0]
                else:
                    got[...] = v.reshape(shape)
                for i in np.ndindex(*shape):
                    pairs.append((got[i], want[i]))
                    labels.append('%s%s' % (a, list(i)))
            if seen != set(self.names):
                return self.report(out, 'not in the model: %s' % sorted(set(self.names) - seen),
                                   vals0, flags0)
            out.obligations += len(pairs)
            r = S.equal_all(pairs, pc, labels=labels)
            if r.status == 'violated':
                v, f = self.point(r.env, sv)
                self.report(out, 'default of %s' % (r.which and r.which[0][0],), v, f)
                if out.status == 'violated':
                    return
            elif r.status == 'unknown':
                out.inconclusive(r.detail)
            # exactly the marked ones
            goals, names = [], []
            for f, u in self.dvs.items():
                c = Flag('flag:' + f).cond
                goals.append(c if u in have else E.bnot(c))
                names.append(u)
            if have - set(self.dvs.values()):
                return self.report(out, 'design variables that nobody marked', vals0, flags0)
            if goals:
                out.obligations += len(goals)
                r = S.valid(goals, pc)
                if r.status == 'violated':
                    v, f = self.point(r.env, sv)
                    self.report(out, 'design variables %s' % sorted(have), v, f)
                    if out.status == 'violated':
                        return
                elif r.status == 'unknown':
                    out.inconclusive(r.detail)
            if not out.twin and pairs:
                r = S.equal_all([(E.add(pairs[0][1], E.ONE), pairs[0][0])], pc, timeout=10.)
                out.twin = int(r.status == 'violated')
            if out.sample is None and pairs:
                out.sample = '%s: %s starts from %s under %s' % (
                    self.id, labels[0], E.show(E.lift(pairs[0][0]), 3),
                    [E.showb(c, 3) for c in pc][:3])
        if ex.truncated:
            out.inconclusive('path bound reached')
        if out.paths == 0:
            out.inconclusive('no feasible path')

    def point(self, env, sv):
        vals = {}
        for n, a in sv.items():
            v = np.zeros(a.shape)
            for k, i in enumerate(np.ndindex(*a.shape)):
                x = a.view(np.ndarray)[i] if a.ndim else a.view(np.ndarray)[()]
                v[i] = env.get(x.args[0], 0.)
            vals[n] = v
        return vals, {f: env.get('flag:' + f, 0.) > 0 for f in self.flags}

    def report(self, out, what, vals, flags):
        rng = np.random.default_rng(5)
        for k in range(4):
            bad = self.concrete(vals, flags)
            if bad:
                return out.violate(bad, self.doc(vals, flags))
            vals = {n: rng.uniform(.5, 2., size=self.vshape(n)) for n in self.variables}
        return out.inconclusive('%s: not reproduced by the real code' % what)

    def doc(self, vals, flags):
        return {'case': self.id, 'defaults': {n: np.asarray(v).tolist() for n, v in vals.items()},
                'flags': {f: bool(x) for f, x in flags.items()}}

    def replay(self, doc):
        return self.concrete({n: np.array(v, float) for n, v in doc['defaults'].items()},
                             doc['flags'])


# ------------------------------------------------------------------- families
def group_of(fn):
    def make(kw, flags):
        class M(ot.Group):
            def setup(self):
                fn(self, kw, flags)
        return M()
    return make


SHAPES = [(1,), (2,), (3,), (6,), (2, 3), (3, 2), (2, 2)]


def first_uses():
    """(operation, shapes) for every operation"""
    for op, entry in OPS.items():
        n, ok = entry[:2]
        k = 0
        for shapes in itertools.product(SHAPES, repeat=n):
            if ok(*shapes):
                yield op, shapes
                k += 1
                if k >= 4:
                    break


def use(op, shapes, kinds, same=False):
    k = 1 if same else len(shapes)
    inputs = [('x%d' % i, shapes[i], kinds[i]) for i in range(k)]
    return Program(inputs, [(op, [0] * len(shapes) if same else list(range(len(shapes))))],
                   {0: 'y'}, 'once')


def prog_case(id, p, hows, **kw):
    variables = {n: (s, hows[i % len(hows)]) for i, (n, s, _) in enumerate(p.inputs)}
    return DefaultCase(id, group_of(lambda g, given_, fl: p.write(g, given_)), variables, **kw)


# uses that are not in the table of operations: name -> (shapes of the operands, build)

USES = {}
for _n in ('arccos', 'arcsin', 'arctan', 'cosec', 'cosech', 'cosh', 'cotan', 'cotanh', 'log',
           'log10', 'sec', 'sech', 'sinh', 'tan'):
    USES[_n] = ([[(1,)], [(3,)], [(2, 3)]], getattr(ot, _n))
USES.update({
    'max over all': ([[(3,)], [(4,)]], lambda x: ot.max(x)),
    'min over all': ([[(3,)], [(4,)]], lambda x: ot.min(x)),
    'max over axis': ([[(2, 3)], [(2, 2, 3)]], lambda x: ot.max(x, axis=1)),
    'min over axis': ([[(2, 3)], [(2, 2, 3)]], lambda x: ot.min(x, axis=0)),
    'max of two': ([[(3,)] * 2, [(2, 3)] * 2], lambda x, y: ot.max(x, y, rho=5.)),
    'min of three': ([[(1,)] * 3, [(2,)] * 3], lambda x, y, z: ot.min(x, y, z, rho=5.)),
    'norm along axis': ([[(2, 3)], [(2, 2, 2)]], lambda x: ot.pnorm(x, axis=(1,))),
    'norm 4': ([[(3,)], [(2, 2)]], lambda x: ot.pnorm(x, pnorm_type=4)),
    'average': ([[(3,)], [(2, 3)], [(1,)]], lambda x: ot.average(x)),
    'average of two': ([[(3,)] * 2, [(2, 3)] * 2], lambda x, y: ot.average(x, y)),
    'average of three': ([[(3,)] * 3], lambda x, y, z: ot.average(x, y, z)),
    'average of two, axes': ([[(2, 3)] * 2], lambda x, y: ot.average(x, y, axes=(0,))),
    'sum of one': ([[(1,)]], lambda x: ot.sum(x)),
    'sum of three': ([[(3,)] * 3, [(2, 3)] * 3], lambda x, y, z: ot.sum(x, y, z)),
    'sum of two, axes': ([[(2, 3)] * 2], lambda x, y: ot.sum(x, y, axes=(1,))),
    'rotation about x': ([[(1,)], [(2,)]], lambda x: ot.rotmat(x, 'x')),
    'rotation about y': ([[(1,)], [(2, 2)]], lambda x: ot.rotmat(x, 'y')),
    'cross along rows': ([[(2, 3)] * 2], lambda x, y: ot.cross(x, y, axis=1)),
    'cross along columns': ([[(3, 2)] * 2], lambda x, y: ot.cross(x, y, axis=0)),
    'tensor inner': ([[(2, 3), (3, 2)]], lambda x, y: ot.inner(x, y, axes=([1], [0]))),
    'tensor outer': ([[(2, 3), (2,)]], ot.outer),
    'tensor dot': ([[(2, 3), (2, 3)]], lambda x, y: ot.dot(x, y, axis=1)),
    'matmat with vector': ([[(2, 3), (3,)]], ot.matmat),
    'einsum of three': ([[(2,), (2, 3), (3,)]],
                        lambda x, y, z: ot.einsum(x, y, z, subscripts='i,ij,j->i')),
    'einsum to number': ([[(2, 2)]], lambda x: ot.einsum(x, subscripts='ij->')),
    'sparse einsum': ([[(2, 3), (3,)]], lambda x, y: ot.einsum(
        x, y, subscripts='ij,j->i', partial_format='sparse')),
    'sparse einsum to number': ([[(3,), (3,)]], lambda x, y: ot.einsum(
        x, y, subscripts='i,i->', partial_format='sparse')),
    'einsum, names of axes': ([[(2, 3), (3,)]], lambda x, y: ot.einsum_new_api(
        x, y, operation=[('r', 'c'), ('c',), ('r',)])),
    'reorder three axes': ([[(2, 1, 3)]], lambda x: ot.reorder_axes(x, 'ijk->kij')),
    'reshape to rank 3': ([[(2, 3)]], lambda x: ot.reshape(x, (1, 3, 2))),
    'transpose of rank 3': ([[(2, 1, 3)]], lambda x: ot.transpose(x)),
    'expand along axes': ([[(2,)], [(3,)]], lambda x: ot.expand(x, x.shape + (2,), 'i->ij')),
    'expand in front': ([[(2,)]], lambda x: ot.expand(x, (3, 2), 'i->ji')),
    'expand matrix': ([[(2, 3)]], lambda x: ot.expand(x, (2, 2, 3), 'ij->kij')),
    'power array': ([[(3,)]], lambda x: x ** np.array([1., 2., 3.])),
    'fractional power': ([[(3,)]], lambda x: x ** 1.5),
    'array minus': ([[(3,)]], lambda x: x - np.array([1., 2., 3.])),
    'quotient': ([[(3,)] * 2, [(1,)] * 2, [(2, 3)] * 2], lambda x, y: x / y),
    'number over': ([[(3,)], [(1,)], [(2, 3)]], lambda x: 3. / x),
    'negative': ([[(1,)]], lambda x: -x),
    'all terms': ([[(3,)] * 3], lambda x, y, z: x + y + z - 1),
    'all factors': ([[(3,)] * 3], lambda x, y, z: x * y * z),
    'whole and part': ([[(3,)], [(4,)]], lambda x: x[0] + ot.sum(x)),
    'part and whole': ([[(3,)], [(4,)]], lambda x: ot.sum(x) + x[1]),
    'part of part': ([[(4,)]], lambda x: x[1:4][0:2]),
    'parts of matrix': ([[(3, 4)]], lambda x: ot.sum(x[0:2, 1:3]) + ot.sum(x[1, :])),
    'parts of rank 3': ([[(2, 2, 2)]], lambda x: ot.sum(x[0, :, 1:2])),
    'backward part': ([[(4,)]], lambda x: x[3:0:-1]),
})



def use_case(id, shapes, f, hows, kinds, same=False, name=None):
    k = 1 if same else len(shapes)
    variables = {'x%d' % i: (shapes[i], hows[i % len(hows)]) for i in range(k)}

    def fn(g, kw, fl):
        vs = [(g.create_indep_var if kinds[i % len(kinds)] == 'indep' else g.declare_input)(
            'x%d' % i, **kw['x%d' % i]) for i in range(k)]
        g.register_output('y', f(*(vs * len(shapes) if same else vs)))
    return DefaultCase(id, group_of(fn), variables)


def nested(how, promotes, style, depth=2):
    """a chain of groups, each with a declared input of its own, the innermost with an indep"""
    variables, names = {}, {}
    path = ''
    for d in range(depth):
        variables['a%d' % d] = ((2,), how)
        names['a%d' % d] = path + 'a%d' % d
        path = path + ('' if promotes else 'sub%d.' % d)
    variables['z'] = ((2,), how)
    names['z'] = names['a%d' % (depth - 1)][:-2] + 'z'

    def make(kw, flags):
        def level(d):
            def fn(g):
                a = g.declare_input('a%d' % d, **kw['a%d' % d])
                g.register_output('b%d' % d, 2 * a)
                if d + 1 < depth:
                    sub = level(d + 1)
                    if style == 'context':
                        with g.create_group('sub%d' % d) as c:
                            fill[d + 1](c)
                    else:
                        g.add_subsystem('sub%d' % d, sub, promotes=['*'] if promotes else None)
                else:
                    z = g.create_indep_var('z', **kw['z'])
                    g.register_output('w', ot.sin(z))
            fill[d] = fn

            class M(ot.Group):
                def setup(self):
                    fn(self)
            return M()
        fill = {}
        if style == 'context':
            for d in range(depth):
                level(d)
        return level(0)
    return DefaultCase('nested %s %s %s' % (how, 'promoted' if promotes else 'kept apart', style),
                       make, variables, names)


def shared(how, ops):
    """one promoted name declared in two groups, with the same default"""
    variables = {'x': ((3,), how)}

    def make(kw, flags):
        def part(f, n):
            class M(ot.Group):
                def setup(self):
                    self.register_output(n, f(self.declare_input('x', **kw['x'])))
            return M()

        class Top(ot.Group):
            def setup(self):
                self.add_subsystem('p', part(ops[0], 'u'), promotes=['*'])
                self.add_subsystem('q', part(ops[1], 'v'), promotes=['*'])
                x = self.declare_input('x', **kw['x'])
                self.register_output('w', 3 * x + self.declare_input('u', shape=(3,)))
        return Top()
    return make, variables


def cyclic(how, shape):
    variables = {'y': (shape, how), 'x': (shape, how)}

    def fn(g, kw, fl):
        x = g.declare_input('x', **kw['x'])
        y = g.create_output('y', **kw['y'])
        y.define(.25 * y + x)
        g.register_output('z', y * y)
    return DefaultCase('cycle starts from its default %s %s' % (how, shape), group_of(fn),
                       variables, runs=False)


def implicit(how, shape, bracket=False):
    variables = {'u': (shape, how), 'x': (shape, how)}
    if not bracket:
        variables['t'] = (shape, how)

    def make(kw, flags):
        class C(ot.ImplicitComponent):
            def setup(self):
                g = self.group
                x = g.declare_input('x', **kw['x'])
                u = g.create_implicit_output('u', **kw['u'])
                if bracket:
                    u.define_residual_bracketed(u * 2 - x, -9., 9.)
                else:
                    t = g.declare_input('t', **kw['t'])
                    u.define_residual(ot.sin(t) * x - u)

        class M(ot.Group):
            def setup(self):
                self.add_subsystem('c', C(), promotes=['*'])
        return M()
    return DefaultCase('implicit %s %s%s' % (how, shape, ' bracketed' if bracket else ''), make,
                       variables, runs=False)


def marks(n, style, how='scalar', again=1):
    """n independent variables, each marked by a symbolic flag"""
    names = ['d%d' % i for i in range(n)]
    variables = {d: ((2,), how) for d in names}
    prom = {d: d for d in names}
    if style == 'apart':
        prom = {d: ('s%d.' % (i % 2) if i else '') + d for i, d in enumerate(names)}

    def make(kw, fl):
        def part(ds, y):
            class P(ot.Group):
                def setup(self):
                    vs = [self.create_indep_var(d, dv=fl[d], **kw[d]) for d in ds]
                    if vs:
                        self.register_output(y, ot.sum(*vs) if len(vs) > 1 else 2 * vs[0])
            return P()
        if style == 'flat':
            return part(names, 'y')
        if style == 'unused':
            class U(ot.Group):
                def setup(self):
                    for d in names:
                        self.create_indep_var(d, dv=fl[d], **kw[d])
                    x = self.declare_input('x', val=1.)
                    self.register_output('y', 2 * x)
            return U()

        class T(ot.Group):
            def setup(self):
                v = self.create_indep_var(names[0], dv=fl[names[0]], **kw[names[0]])
                for k in (0, 1):
                    ds = [d for i, d in enumerate(names) if i and i % 2 == k]
                    if ds:
                        self.add_subsystem('s%d' % k, part(ds, 'y%d' % k),
                                           promotes=['*'] if style == 'nested' else None)
                self.register_output('z', 3 * v)
        return T()
    return DefaultCase('%d marks %s %s%s' % (n, style, how, '' if again == 1 else ' again'), make,
                       variables, prom, flags=names, dvs={d: prom[d] for d in names}, again=again)


def cases(tier):
    out = []
    kinds = (('input',), ('indep',), ('input', 'indep'))
    k = 0
    for op, shapes in first_uses():
        for how in HOW:
            for ks in kinds[:2 if len(shapes) == 1 else 3]:
                k += 1
                if tier == 'quick' and k % 3 and how != 'array':
                    continue
                p = use(op, shapes, [ks[i % len(ks)] for i in range(len(shapes))])
                hs = (how,) if len(shapes) == 1 else (how, HOW[(HOW.index(how) + k) % len(HOW)])
                out.append(prog_case('%s %s %s %s' % (op, shapes, ks, hs), p, hs))
        if len(shapes) > 1 and len(set(shapes)) == 1 and op not in GROUPED:
            p = use(op, shapes, ['input'], same=True)
            out.append(prog_case('%s %s repeated' % (op, shapes), p, ('array',)))
    for op, (sets, f) in USES.items():
        for shapes in sets:
            for how in HOW:
                for ks in kinds[:2]:
                    k += 1
                    if tier == 'quick' and k % 3 and how != 'array':
                        continue
                    out.append(use_case('%s %s %s %s' % (op, shapes, how, ks[0]), shapes, f,
                                        (how,), ks))
            if len(shapes) > 1 and len(set(shapes)) == 1 and op not in ('all terms',):
                out.append(use_case('%s %s repeated' % (op, shapes), shapes, f, ('array',),
                                    ('input',), same=True))
    rng = np.random.default_rng(18)
    seen = set()
    n = 60 if tier == 'quick' else 400
    while len(seen) < n:
        p = prune(draw(rng, int(rng.integers(2, 7)), cheap=True))
        used = {a for _, args in p.body for a in args}
        if not all(i in used or kd == 'indep' for i, (_, _, kd) in enumerate(p.inputs)):
            continue
        if text(p) in seen:
            continue
        seen.add(text(p))
        hs = [HOW[int(rng.integers(len(HOW)))] for _ in p.inputs]
        out.append(prog_case('program %d: %s %s' % (len(seen), text(p), hs), p, hs,
                             again=1 + len(seen) % 2))
    for how in HOW:
        for style in ('class', 'context'):
            for promotes in (True, False) if style == 'class' else (True,):
                out.append(nested(how, promotes, style))
                if style == 'class':
                    c = nested(how, promotes, style, depth=3)
                    c.id += ' depth 3'
                    out.append(c)
        for i, ops in enumerate([(ot.sin, lambda x: 2 * x), (lambda x: x ** 2, ot.cos),
                                 (lambda x: x + 1, lambda x: ot.reshape(x, (3,)))]):
            make, variables = shared(how, ops)
            out.append(DefaultCase('shared name %d %s' % (i, how), make, variables))
        for shape in ((1,), (3,), (2, 2)):
            out.append(cyclic(how, shape))
            out.append(implicit(how, shape))
    for n in (1, 2, 3, 4):
        for style in ('flat', 'unused', 'nested', 'apart'):
            out.append(marks(n, style))
            out.append(marks(n, style, 'array', again=2))
    # a number, no shape
    for ks in ('input', 'indep'):
        def fn(g, kw, fl, ks=ks):
            f = g.create_indep_var if ks == 'indep' else g.declare_input
            g.register_output('y', 2 * f('x', **kw['x']))
        out.append(DefaultCase('bare number %s' % ks, group_of(fn),
                               {'x': ((1,), 'bare scalar')}))
    return out
