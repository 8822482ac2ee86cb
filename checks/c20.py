"""Ill-formed models are rejected, well-formed ones are not."""
from checks.common import *
from symot import solve as S
from symot.ints import SymInt, symint, within, DOMAIN
import contextlib
import os
import time
import traceback
import openmdao.api as om

PROP = 'C20'
TITLE = 'rejection of ill-formed models'
ASSUMPTIONS = [
    'extents, indices, axes and choices are integers within the stated bounds; the code that '
    'writes an expression runs with symbolic integers, what it accepts is then set up with '
    'numbers',
    'array values play no part in acceptance (they are placeholders while extents are symbolic)',
    'OpenMDAO 3.45.1 setup is trusted and runs for real']
OUTSIDE = ('ranks, operand counts and sequences of definitions beyond those enumerated; extents '
           'and indices beyond the bounds; arguments of wrong types other than those listed')
EXT = range(1, 6)
BOUNDS = {
    'extents': '1..5 (1..4 with three operands), symbolic; ranks 1..3 in every combination',
    'indices': 'int -2..7, slices with start, stop and step symbolic in -1..6 (start, stop), '
               '1..3 (step)',
    'axes': '-3..4', 'definitions': 'sequences of up to 3 actions on outputs, residuals, '
                                    'registrations; every choice of action symbolic'}


class Placeholder(np.ndarray):
    """an array of symbolic extents: its values stand for nothing"""
    extents = None

    def __array_finalize__(self, other):
        if isinstance(other, Placeholder):
            self.extents = other.extents

    @property
    def shape(self):
        return self.extents

    def __getitem__(self, k):
        raise E.Unencodable('elements of an array of symbolic extents')

    def __repr__(self):
        return '<array of %s>' % (self.extents,)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self


def placeholder(shape):
    a = np.ones(1).view(Placeholder)
    a.extents = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    return a


@contextlib.contextmanager
def placeholders():
    """arrays of symbolic extents stand for nothing while expressions are written"""
    real = {n: getattr(np, n) for n in ('ones', 'zeros', 'full', 'empty', 'delete')}

    def has(s):
        return type(s) is SymInt or isinstance(s, (tuple, list)) and any(type(x) is SymInt
                                                                         for x in s)

    def patched(f):
        def g(shape, *a, **k):
            if has(shape):
                return placeholder(shape)
            return f(shape, *a, **k)
        return g

    def delete(a, obj, *r, **k):
        if has(obj):
            obj = int(obj) if type(obj) is SymInt else [int(x) for x in obj]
        return real['delete'](a, obj, *r, **k)
    for n, f in real.items():
        setattr(np, n, patched(f))
    def number(x):
        return int(x) if type(x) is SymInt else x

    # functions that make arrays of the numbers themselves
    def counting(f):
        def g(*a, **k):
            return f(*[number(x) for x in a], **{n: number(x) for n, x in k.items()})
        return g
    real['arange'], real['linspace'] = np.arange, np.linspace
    np.arange, np.linspace = counting(np.arange), counting(np.linspace)
    np.delete = delete
    try:
        yield
    finally:
        for n, f in real.items():
            setattr(np, n, f)


class RejectCase(object):
    """write(g, v): expressions written into g; v holds the integers

    ints  {name: values it ranges over}
    good  conditions (on symbolic integers) under which the model must be accepted
    bad   conditions under which it must be refused (default: whenever not good)
    """
    kind = 'rejection'
    limit = 400

    def __init__(self, id, ints, write, good, bad=None, host='group'):
        self.id = id
        self.ints = {n: list(r) for n, r in ints.items()}
        self.write = write
        self.good_ = good
        self.bad_ = bad
        self.host = host

    def good(self, v):
        return E.band(*[E.blift(c) for c in self.good_(v)])

    def bad(self, v):
        if self.bad_ is None:
            return E.bnot(self.good(v))
        return E.bor(*[E.blift(c) for c in self.bad_(v)])

    # ------------------------------------------------------------- with numbers
    def accepted(self, v):
        """(True, '') or (False, why) for the real code from writing to running"""
        write, host = self.write, self.host
        stage = 'writing'
        try:
            with quiet():
                if host == 'group':
                    class M(ot.Group):
                        def setup(self):
                            write(self, v)
                    m = M()
                else:
                    class C(ot.ImplicitComponent):
                        def setup(self):
                            write(self.group, v)

                    class M(ot.Group):
                        def setup(self):
                            self.add_subsystem('c', C(), promotes=['*'])
                    m = M()
                p = om.Problem(model=m)
                p.setup()
                stage = 'setup'
                p.final_setup()
                stage = 'running'
                if host == 'group':
                    p.run_model()
        except Exception as e:
            return stage, '%s: %s' % (type(e).__name__, str(e)[:200])
        return None, ''

    def written(self, v):
        with quiet():
            try:
                self.write(ot.Group() if self.host == 'group' else ot.ImplicitComponent().group, v)
            except Exception as e:
                return '%s: %s' % (type(e).__name__, str(e)[:200])
        return None

    # ------------------------------------------------------------- symbolic
    def point(self, env):
        out = {}
        for n, r in self.ints.items():
            x = env.get(n)
            out[n] = int(round(x)) if x is not None and round(x) in r else r[0]
        return out

    def judge(self, out, v):
        """compare the real code at v with the specification; a difference is a violation"""
        env = {n: float(x) for n, x in v.items()}
        g, b = E.evaluate([self.good(self.syms()), self.bad(self.syms())], env)
        stage, why = self.accepted(v)
        out.conformance += 1
        if g and stage:
            return out.violate('well-formed, but refused (%s): %s at %s' % (stage, why, v),
                               self.doc(v))
        if b and stage is None:
            return out.violate('ill-formed, but accepted and run: at %s' % v, self.doc(v))
        if b and stage == 'running':
            return out.violate('ill-formed, but only the run fails (%s): at %s' % (why, v),
                               self.doc(v))
        return None

    def syms(self):
        return {n: E.var(n) for n in self.ints}

    def doc(self, v):
        return {'case': self.id, 'integers': dict(v)}

    def replay(self, doc):
        o = Outcome()
        self.judge(o, {n: int(x) for n, x in doc['integers'].items()})
        return o.what if o.status == 'violated' else None

    def run(self, seed, tier):
        out = Outcome()
        t0 = time.time()
        try:
            self.symbolic(out)
        except E.Unencodable as e:
            out.inconclusive('not encodable: %s' % e)
        out.wall = time.time() - t0
        return out

    def symbolic(self, out):
        dom = [within(n, r) for n, r in self.ints.items()]
        s = self.syms()
        good, bad = self.good(s), self.bad(s)

        def go():
            v = {n: symint(n, r) for n, r in self.ints.items()}
            with quiet(), placeholders():
                g = ot.Group() if self.host == 'group' else ot.ImplicitComponent().group
                self.write(g, v)
        ex = E.Explorer(S.path_checker())
        for (kind, r), pc in ex.run(go, dom):
            out.paths += 1
            out.obligations += 1
            st, env = S.satisfiable(pc)
            v = self.point(env)
            # the same with numbers, at one point of the path
            said = self.written(v)
            if (said is None) != (kind == 'ok'):
                out.inconclusive('writing with symbolic integers (%s %s) and with %s (%s) differ'
                                 % (kind, r, v, said))
                continue
            if self.judge(out, v):
                return
            if kind != 'ok':
                res = S.valid([E.bnot(good)], pc)
                if res.status == 'violated':
                    v = self.point(res.env)
                    if self.judge(out, v):
                        return
                    out.inconclusive('refused on a path that allows %s: %s' % (v, r))
                elif res.status == 'unknown':
                    out.inconclusive(res.detail)
            else:
                # accepted as written: whatever is ill-formed here must be refused at setup
                block = []
                for _ in range(self.limit):
                    st, env = S.satisfiable(pc + [bad] + block)
                    if st != 'sat':
                        if st == 'unknown':
                            out.inconclusive('solver undecided')
                        break
                    v = self.point(env)
                    if self.judge(out, v):
                        return
                    block.append(E.bnot(E.band(*[E.eq(E.var(n), E.const(x))
                                                 for n, x in v.items()])))
                else:
                    out.inconclusive('more than %d points are left to setup' % self.limit)
            if out.sample is None:
                out.sample = '%s: %s under %s' % (self.id, 'accepted' if kind == 'ok' else
                                                  'refused', [E.showb(c, 4) for c in pc][-3:])
        if ex.truncated:
            out.inconclusive('path bound reached')
        # both answers are asked for somewhere
        out.twin = int(S.satisfiable(dom + [bad])[0] == 'sat')
        out.functions.add('omtools (writing expressions)')


# ------------------------------------------------------------------- helpers
def shape(v, p, r):
    return tuple(v['%s%d' % (p, i)] for i in range(r))


def dims(p, r, rng=EXT):
    return {'%s%d' % (p, i): rng for i in range(r)}


def x_(g, n, s):
    """a declared input whose value is given as a number, so its extents can be symbolic"""
    return g.declare_input(n, shape=tuple(s), val=.5)


def same(v, p, q, r, s):
    return [E.FALSE] if r != s else [E.eq(v['%s%d' % (p, i)], v['%s%d' % (q, i)])
                                     for i in range(r)]


def ops(id, ranks, f, good, bad=None, rng=EXT, extra=None, kinds=('input',)):
    """y = f(v, *operands): operands of the given ranks with symbolic extents"""
    out = []
    names = 'abcd'[:len(ranks)]
    ints = {}
    for p, r in zip(names, ranks):
        ints.update(dims(p, r, rng))
    ints.update(extra or {})
    for kind in kinds:
        def write(g, v, kind=kind):
            xs = []
            for p, r in zip(names, ranks):
                if kind == 'indep':
                    u = g.create_indep_var(p, shape=shape(v, p, r), val=.5)
                else:
                    u = x_(g, p, shape(v, p, r))
                xs.append(2 * u if kind == 'expr' else u)
            g.register_output('y', f(v, *xs))
        out.append(RejectCase('%s ranks %s %s' % (id, ranks, kind), ints, write, good, bad))
    return out


def all_same(ranks):
    names = 'abcd'[:len(ranks)]

    def good(v):
        c = []
        for i in range(1, len(ranks)):
            c += same(v, names[0], names[i], ranks[0], ranks[i])
        return c
    return good


def num(x):
    return E.const(x)


def cases(tier):
    out = []
    F = E.FALSE
    T = E.TRUE
    combos = [(r, s) for r in (1, 2, 3) for s in (1, 2, 3)]
    EX3 = range(1, 5)

    # operands of one shape
    elementwise = {
        'plus': (2, lambda v, a, b: a + b), 'minus': (2, lambda v, a, b: a - b),
        'times': (2, lambda v, a, b: a * b), 'over': (2, lambda v, a, b: a / b),
        'sum': (2, lambda v, a, b: ot.sum(a, b)), 'average': (2, lambda v, a, b: ot.average(a, b)),
        'max': (2, lambda v, a, b: ot.max(a, b, rho=2.)),
        'min': (2, lambda v, a, b: ot.min(a, b, rho=2.)),
        'sum over axis 0': (2, lambda v, a, b: ot.sum(a, b, axes=(0,))),
        'average over axis 0': (2, lambda v, a, b: ot.average(a, b, axes=(0,))),
    }
    for nm, (n, f) in elementwise.items():
        for ranks in combos:
            if 'axis' in nm and min(ranks) < 2:
                continue
            out += ops(nm, ranks, f, all_same(ranks), rng=EXT if max(ranks) < 3 else range(1, 4),
                       kinds=('input', 'expr', 'indep') if max(ranks) == 1 else ('input', 'expr'))
    for nm, f in {'sum': lambda v, *x: ot.sum(*x), 'average': lambda v, *x: ot.average(*x),
                  'max': lambda v, *x: ot.max(*x, rho=2.), 'min': lambda v, *x: ot.min(*x, rho=2.),
                  'chain': lambda v, a, b, c: a + b * c}.items():
        for ranks in [(1, 1, 1), (2, 2, 2), (1, 2, 1), (2, 2, 1)]:
            out += ops(nm + ' of three', ranks, f, all_same(ranks),
                       rng=EX3 if max(ranks) == 1 else range(1, 3), kinds=('input', 'expr'))
    # a conditional: the branches have one shape, the condition is one number
    for ranks in combos:
        def good(v, ranks=ranks):
            return same(v, 'b', 'c', ranks[0], ranks[1]) + [E.eq(v['a0'], num(1))]

        def bad(v, ranks=ranks):
            return [E.bnot(E.band(*same(v, 'b', 'c', ranks[0], ranks[1])))]
        out += ops('conditional', (1,) + ranks, lambda v, a, b, c: ot.if_else(a, b, c), good, bad,
                   rng=range(1, 4))
    # products
    for r, s in combos:
        def g_mv(v, r=r, s=s):
            return [E.eq(v['a1'], v['b0'])] if (r, s) == (2, 1) else [F]
        out += ops('matvec', (r, s), lambda v, a, b: ot.matvec(a, b), g_mv)

        def g_mm(v, r=r, s=s):
            return [E.eq(v['a1'], v['b0'])] if r == 2 and s in (1, 2) else [F]
        out += ops('matmat', (r, s), lambda v, a, b: ot.matmat(a, b), g_mm,
                   rng=EXT if max(r, s) < 3 else range(1, 4), kinds=('input', 'expr'))
        out += ops('outer', (r, s), lambda v, a, b: ot.outer(a, b), lambda v: [T],
                   rng=range(1, 5))
        if (r, s) == (1, 1):
            out += ops('dot', (r, s), lambda v, a, b: ot.dot(a, b), all_same((1, 1)),
                       kinds=('input', 'expr'))
            out += ops('inner', (r, s), lambda v, a, b: ot.inner(a, b), all_same((1, 1)),
                       kinds=('input', 'expr'))
        ext = range(1, 6) if max(r, s) < 3 else range(2, 5)
        for axis in range(min(r, s)):
            def g_ax(v, r=r, s=s, axis=axis):
                return same(v, 'a', 'b', r, s) + [E.eq(v['a%d' % axis], num(3))]
            out += ops('cross axis %d' % axis, (r, s),
                       lambda v, a, b, axis=axis: ot.cross(a, b, axis=axis), g_ax, rng=ext)
            if r > 1:
                out += ops('dot axis %d' % axis, (r, s),
                           lambda v, a, b, axis=axis: ot.dot(a, b, axis=axis), g_ax, rng=ext)
        if max(r, s) > 1:
            for i in range(r):
                for j in range(s):
                    def g_in(v, i=i, j=j):
                        return [E.eq(v['a%d' % i], v['b%d' % j])]
                    if r + s <= 4:
                        out += ops('inner axes %d,%d' % (i, j), (r, s),
                                   lambda v, a, b, i=i, j=j: ot.inner(a, b, axes=([i], [j])),
                                   g_in, rng=range(1, 5), kinds=('input', 'expr'))
    def g_in2(v):
        return [E.eq(v['a0'], v['b1']), E.eq(v['a1'], v['b0'])]
    out += ops('inner over two axes', (2, 2),
               lambda v, a, b: ot.inner(a, b, axes=([0, 1], [1, 0])), g_in2)
    # sums of products
    subs = {'ij,jk->ik': (2, 2), 'ij,j->i': (2, 1), 'i,i->': (1, 1), 'i,j->ij': (1, 1),
            'ii->i': (2,), 'ii->': (2,), 'ij->ji': (2,), 'ij,ij->ij': (2, 2), 'ijk,kj->i': (3, 2),
            'i,ij,j->': (1, 2, 1), 'ij,jk,ki->i': (2, 2, 2)}
    for sub, ranks in subs.items():
        def g_es(v, sub=sub, ranks=ranks):
            first, c = {}, []
            for p, t in zip('abcd', sub.split('->')[0].split(',')):
                for i, ax in enumerate(t):
                    e = v['%s%d' % (p, i)]
                    if ax in first:
                        c.append(E.eq(first[ax], e))
                    else:
                        first[ax] = e
            return c
        for fmt in ('dense', 'sparse'):
            out += ops('einsum %s %s' % (sub, fmt), ranks,
                       lambda v, *x, sub=sub, fmt=fmt: ot.einsum(*x, subscripts=sub,
                                                                 partial_format=fmt),
                       g_es, rng=range(1, 5) if sum(ranks) < 5 else range(1, 3),
                       kinds=('input', 'expr') if fmt == 'dense' else ('input',))
    # subscripts that do not fit the ranks
    for sub, ranks in {'ij,j->i': (2, 2), 'ijk->kij': (2,), 'ij->ji': (3,), 'i,i->': (1, 2),
                       'ij,jk->ik': (2, 1)}.items():
        for fmt in ('dense', 'sparse'):
            out += ops('einsum %s %s of other ranks' % (sub, fmt), ranks,
                       lambda v, *x, sub=sub, fmt=fmt: ot.einsum(*x, subscripts=sub,
                                                                 partial_format=fmt),
                       lambda v: [F], rng=range(1, 4))
    # the same entries in another shape
    for r in (1, 2, 3):
        for s in (1, 2, 3):
            def g_rs(v, r=r, s=s):
                p = q = num(1)
                for i in range(r):
                    p = E.mul(p, v['a%d' % i])
                for i in range(s):
                    q = E.mul(q, v['n%d' % i])
                return [E.eq(p, q)]
            ext = {1: range(1, 7), 2: range(1, 5), 3: range(1, 4)}
            out += ops('reshape to rank %d' % s, (r,),
                       lambda v, a, s=s: ot.reshape(a, shape(v, 'n', s)), g_rs,
                       rng=ext[r] if max(r, s) > 1 else range(1, 9),
                       extra=dims('n', s, ext[s] if max(r, s) > 1 else range(1, 9)),
                       kinds=('input', 'expr'))
    # copies along further axes
    for ind, r in {'i->ij': 1, 'i->ji': 1, 'ij->ijk': 2, 'ij->kij': 2, 'ij->ikj': 2,
                   'i->jik': 1}.items():
        o = ind.split('->')[1]

        def g_ex(v, ind=ind, r=r, o=o):
            return [E.eq(v['a%d' % i], v['n%d' % o.index(ax)])
                    for i, ax in enumerate(ind.split('->')[0])]

        def b_ex(v, g=g_ex, r=r):
            # one number is copied whatever the subscripts say
            return [E.band(E.bnot(E.band(*g(v))), E.bnot(E.band(
                *[E.eq(v['a%d' % i], num(1)) for i in range(r)])))]
        out += ops('expand ' + ind, (r,), lambda v, a, ind=ind, o=o: ot.expand(
            a, shape(v, 'n', len(o)), ind), g_ex, b_ex, rng=range(1, 5),
            extra=dims('n', len(o), range(1, 5)))
    for r in (1, 2):
        out += ops('expand without subscripts', (r,), lambda v, a: ot.expand(
            a, shape(v, 'n', 2)), lambda v, r=r: [E.eq(v['a0'], num(1))] if r == 1 else [F],
            extra=dims('n', 2, range(1, 4)))
    # orders of axes
    for sub in ('ij->ji', 'ijk->kij', 'ijk->jik', 'i->i'):
        for r in (1, 2, 3):
            fits = len(sub.split('->')[0]) == r
            out += ops('reorder ' + sub, (r,), lambda v, a, sub=sub: ot.reorder_axes(a, sub),
                       lambda v, fits=fits: [T if fits else F], rng=range(1, 4))
    # axes
    AX = range(-4, 5)

    def in_rank(r):
        return lambda v: [E.bnot(E.lt(v['k'], num(0))), E.lt(v['k'], num(r))]

    def out_rank(r):
        return lambda v: [E.bor(E.lt(v['k'], num(-r)), E.bnot(E.lt(v['k'], num(r))))]
    for r in (1, 2, 3):
        for nm, f in {'max': lambda v, a: ot.max(a, axis=v['k']),
                      'min': lambda v, a: ot.min(a, axis=v['k']),
                      'pnorm': lambda v, a: ot.pnorm(a, axis=(v['k'],)),
                      'pnorm int': lambda v, a: ot.pnorm(a, axis=v['k']),
                      'sum': lambda v, a: ot.sum(a, axes=(v['k'],)),
                      'average': lambda v, a: ot.average(a, axes=(v['k'],))}.items():
            out += ops('axis of ' + nm, (r,), f,
                       (lambda v: [F]) if r == 1 else in_rank(r), out_rank(r), rng=(2, 3),
                       extra={'k': AX})
    # rotations take one angle or an array of angles, about x, y or z
    for ax in 'xyzw':
        out += ops('rotation about ' + ax, (1,), lambda v, a, ax=ax: ot.rotmat(a, ax),
                   lambda v, ax=ax: [F if ax == 'w' else T], rng=range(1, 4))
    # even positive powers for norms
    out += ops('power of norm', (1,), lambda v, a: ot.pnorm(a, pnorm_type=v['k']),
               lambda v: [E.bor(*[E.eq(v['k'], num(k)) for k in (2, 4, 6)])], rng=range(1, 4),
               extra={'k': range(-2, 7)})
    out += reads(tier)
    out += writes(tier)
    out += histories(tier)
    out += constants(tier)
    return out


# ------------------------------------------------------------------- indices
def ge(a, b):
    return E.bnot(E.lt(a, b))


def reads(tier):
    out = []
    K = range(-2, 8)
    for n in (1, 2, 3, 5):
        def w(g, v, n=n):
            g.register_output('y', 2 * g.declare_input('a', shape=(n,), val=.5)[v['k']])
        out.append(RejectCase('read entry of %d' % n, {'k': K}, w,
                              lambda v, n=n: [ge(v['k'], num(0)), E.lt(v['k'], num(n))],
                              lambda v, n=n: [ge(v['k'], num(n)), E.lt(v['k'], num(-n))]))

        def ws(g, v, n=n):
            g.register_output('y', 2 * g.declare_input('a', shape=(n,), val=.5)[v['s']:v['e']])

        def gs(v, n=n):
            return [ge(v['s'], num(0)), E.lt(v['s'], v['e']), E.bnot(E.lt(num(n), v['e']))]

        def bs(v, n=n):
            # out of range, or nothing selected
            return [ge(v['s'], num(n)), E.band(ge(v['e'], num(0)), ge(v['s'], v['e']))]
        out.append(RejectCase('read slice of %d' % n, {'s': range(0, 7), 'e': range(0, 7)}, ws,
                              gs, bs))

        def wst(g, v, n=n):
            g.register_output('y', 2 * g.declare_input('a', shape=(n,), val=.5)[
                v['s']:v['e']:v['t']])
        out.append(RejectCase('read slice with step of %d' % n,
                              {'s': range(0, 6), 'e': range(0, 7), 't': (1, 2, 3)}, wst, gs, bs))
    for sh in ((2, 3), (3, 2)):
        def w2(g, v, sh=sh):
            g.register_output('y', 2 * g.declare_input('a', shape=sh, val=.5)[v['k'], v['l']])

        def g2(v, sh=sh):
            return [ge(v['k'], num(0)), E.lt(v['k'], num(sh[0])),
                    ge(v['l'], num(0)), E.lt(v['l'], num(sh[1]))]

        def b2(v, sh=sh):
            return [ge(v['k'], num(sh[0])), ge(v['l'], num(sh[1])),
                    E.lt(v['k'], num(-sh[0])), E.lt(v['l'], num(-sh[1]))]
        out.append(RejectCase('read entry of %s' % (sh,), {'k': range(-4, 6), 'l': range(-4, 6)},
                              w2, g2, b2))

        def w3(g, v, sh=sh):
            g.register_output('y', 2 * g.declare_input('a', shape=sh, val=.5)[
                v['s']:v['e'], v['l']])

        def g3(v, sh=sh):
            return [ge(v['s'], num(0)), E.lt(v['s'], v['e']), E.bnot(E.lt(num(sh[0]), v['e'])),
                    ge(v['l'], num(0)), E.lt(v['l'], num(sh[1]))]

        def b3(v, sh=sh):
            return [ge(v['s'], num(sh[0])), ge(v['s'], v['e']), ge(v['l'], num(sh[1]))]
        out.append(RejectCase('read part of %s' % (sh,),
                              {'s': range(0, 5), 'e': range(0, 5), 'l': range(0, 5)}, w3, g3, b3))
    return out


def interval(v, p):
    return v['s' + p], v['e' + p]


def writes(tier):
    out = []
    # one entry, the others filled
    for n in (1, 2, 3, 4):
        def w(g, v, n=n):
            y = g.create_output('y', shape=(n,))
            y[v['k']] = 2 * g.declare_input('a', shape=(v['m'],), val=.5)
        out.append(RejectCase('write entry of %d' % n, {'k': range(-2, 7), 'm': range(1, 4)}, w,
                              lambda v, n=n: [ge(v['k'], num(0)), E.lt(v['k'], num(n)),
                                              E.eq(v['m'], num(1))],
                              lambda v, n=n: [ge(v['k'], num(n)), E.lt(v['k'], num(-n)),
                                              E.bnot(E.eq(v['m'], num(1)))]))

        def ws(g, v, n=n):
            y = g.create_output('y', shape=(n,))
            y[v['s']:v['e']] = 2 * g.declare_input('a', shape=(v['m'],), val=.5)

        def gs(v, n=n):
            return [ge(v['s'], num(0)), E.lt(v['s'], v['e']), E.bnot(E.lt(num(n), v['e'])),
                    E.eq(v['m'], v['e'] - v['s'])]

        def bs(v, n=n):
            return [E.lt(num(n), v['e']), ge(v['s'], v['e']),
                    E.bnot(E.eq(v['m'], v['e'] - v['s']))]
        out.append(RejectCase('write slice of %d' % n,
                              {'s': range(0, 6), 'e': range(0, 7), 'm': range(1, 5)}, ws, gs, bs))
    # two pieces

    def w2(g, v):
        y = g.create_output('y', shape=(4,))
        y[v['k']] = 2 * g.declare_input('a')
        y[v['l']] = 3 * g.declare_input('b')
    out.append(RejectCase('write two entries', {'k': range(0, 6), 'l': range(0, 6)}, w2,
                          lambda v: [E.lt(v['k'], num(4)), E.lt(v['l'], num(4)),
                                     E.bnot(E.eq(v['k'], v['l']))]))

    def w3(g, v):
        y = g.create_output('y', shape=(5,))
        y[v['sa']:v['ea']] = 2 * g.declare_input('a', shape=(v['ea'] - v['sa'],), val=.5)
        y[v['sb']:v['eb']] = 2 * g.declare_input('b', shape=(v['eb'] - v['sb'],), val=.5)

    def fits(v, p):
        s, e = interval(v, p)
        return [E.lt(s, e), E.bnot(E.lt(num(5), e))]

    def apart(v):
        (s, e), (t, f) = interval(v, 'a'), interval(v, 'b')
        return E.bor(E.bnot(E.lt(t, e)), E.bnot(E.lt(s, f)))
    out.append(RejectCase('write two slices', {'sa': range(0, 4), 'ea': range(1, 6),
                                               'sb': range(0, 4), 'eb': range(1, 6)},
                          w3, lambda v: fits(v, 'a') + fits(v, 'b') + [apart(v)]))

    def w4(g, v):
        y = g.create_output('y', shape=(6,))
        y[v['s']::v['t']] = 2 * g.declare_input('a', shape=(2,), val=.5)
        y[v['k']] = 3 * g.declare_input('b')

    def g4(v):
        # two entries: s, s + t
        return [E.lt(v['s'] + v['t'], num(6)), ge(v['s'] + v['t'] + v['t'], num(6)),
                E.bnot(E.eq(v['k'], v['s'])), E.bnot(E.eq(v['k'], v['s'] + v['t'])),
                E.lt(v['k'], num(6))]
    out.append(RejectCase('write a slice with a step and an entry',
                          {'s': range(0, 6), 't': (1, 2, 3, 4), 'k': range(0, 8)}, w4, g4))

    def w5(g, v):
        y = g.create_output('y', shape=(3, 3))
        y[v['k'], v['l']] = g.declare_input('a', shape=(1, 1), val=.5)
        y[v['m'], :] = g.declare_input('b', shape=(1, 3), val=.5)
    out.append(RejectCase('write an entry and a row', {'k': range(0, 5), 'l': range(0, 5),
                                                      'm': range(0, 5)}, w5,
                          lambda v: [E.lt(v['k'], num(3)), E.lt(v['l'], num(3)),
                                     E.lt(v['m'], num(3)), E.bnot(E.eq(v['k'], v['m']))]))

    def w6(g, v):
        y = g.create_output('y', shape=(2, 3))
        y[0:v['e'], 0:v['f']] = g.declare_input('a', shape=(v['m'], v['n']), val=.5)
    out.append(RejectCase('write a block', {'e': range(1, 5), 'f': range(1, 5),
                                           'm': range(1, 5), 'n': range(1, 5)}, w6,
                          lambda v: [E.bnot(E.lt(num(2), v['e'])), E.bnot(E.lt(num(3), v['f'])),
                                     E.eq(v['m'], v['e']), E.eq(v['n'], v['f'])]))

    def w7(g, v):
        y = g.create_output('y', shape=(4,))
        for i, k in enumerate('klm'):
            y[v[k]] = (i + 2) * g.declare_input('a')
    out.append(RejectCase('write three entries', {k: range(0, 5) for k in 'klm'}, w7,
                          lambda v: [E.lt(v[k], num(4)) for k in 'klm'] +
                          [E.bnot(E.eq(v[a], v[b])) for a, b in ('kl', 'km', 'lm')]))
    return out


# ------------------------------------------------------------------- histories of definitions
def is_(v, n, *ks):
    return E.bor(*[E.eq(v[n], num(k)) for k in ks])


def histories(tier):
    out = []
    N = 3

    # actions on one explicit output
    ACT = ['nothing', 'define', 'y[0]', 'y[1]', 'y[0:2]', 'define as itself']

    def w(g, v):
        x = g.declare_input('x', shape=(2,), val=.5)
        y = g.create_output('y', shape=(2,))
        for t in range(N):
            k = int(v['c%d' % t])
            u = (t + 2) * x
            if k == 1:
                y.define(u + .1 * y)
            elif k == 2:
                y[0] = u[0]
            elif k == 3:
                y[1] = u[1]
            elif k == 4:
                y[0:2] = u
            elif k == 5:
                y.define(y)
        g.register_output('z', 2 * y)

    def good(v):
        import itertools as it
        ok = []
        for seq in it.product(range(len(ACT)), repeat=N):
            real = [k for k in seq if k]
            if sorted(real) in ([1], [2, 3], [4], [2], [3]):
                ok.append(E.band(*[E.eq(v['c%d' % t], num(k)) for t, k in enumerate(seq)]))
        return [E.bor(*ok)]
    out.append(RejectCase('definitions of an output', {'c%d' % t: range(len(ACT))
                                                      for t in range(N)}, w, good))

    # registrations: which of three expressions under which of three names, twice or thrice
    def w2(g, v):
        x = g.declare_input('x', shape=(2,), val=.5)
        es = [2 * x, ot.sin(x), x * x]
        for t in range(N):
            g.register_output('abc'[int(v['n%d' % t])], es[int(v['e%d' % t])])

    def good2(v):
        c = []
        for i in range(N):
            for j in range(i):
                c.append(E.bnot(E.eq(v['n%d' % i], v['n%d' % j])))
                c.append(E.bnot(E.eq(v['e%d' % i], v['e%d' % j])))
        return c
    out.append(RejectCase('registrations', dict([('n%d' % t, range(3)) for t in range(N)] +
                                                [('e%d' % t, range(3)) for t in range(N)]),
                          w2, good2))

    # two ways to claim a name
    WAYS = ['register an expression', 'create an output and define it',
            'create an output and assign it', 'independent variable', 'register another']

    def w3(g, v):
        x = g.declare_input('x', shape=(2,), val=.5)
        for t in range(2):
            k, nm = int(v['w%d' % t]), 'ab'[int(v['n%d' % t])]
            if k == 0:
                g.register_output(nm, (2 + t) * x)
            elif k == 1:
                y = g.create_output(nm, shape=(2,))
                y.define((2 + t) * x + .1 * y)
            elif k == 2:
                y = g.create_output(nm, shape=(2,))
                y[0:2] = (2 + t) * x
            elif k == 3:
                g.create_indep_var(nm, shape=(2,), val=1. + t)
            else:
                g.register_output(nm, ot.cos(x))
        g.register_output('z', ot.sin(x))
    out.append(RejectCase('two claims of a name', {'w0': range(5), 'w1': range(5), 'n0': range(2),
                                                  'n1': range(2)}, w3,
                          lambda v: [E.bnot(E.eq(v['n0'], v['n1']))]))

    # an output that is used, or only created, without a definition
    def w4(g, v):
        x = g.declare_input('x', shape=(2,), val=.5)
        y = g.create_output('y', shape=(2,))
        if int(v['d']) == 1:
            y[0:2] = 2 * x
        elif int(v['d']) == 2:
            y.define(.1 * y + x)
        if int(v['u']) == 1:
            g.register_output('z', 3 * y)
        elif int(v['u']) == 2:
            g.register_output('z', x + y[0:2] * 2)
        else:
            g.register_output('z', 3 * x)
    out.append(RejectCase('outputs without a definition', {'d': range(3), 'u': range(3)}, w4,
                          lambda v: [E.lt(num(0), v['d'])]))

    # what may be registered
    def w5(g, v):
        k = int(v['k'])
        x = g.declare_input('x', shape=(2,), val=.5)
        d = g.create_indep_var('d', shape=(2,), val=.5)
        y = g.create_output('y', shape=(2,))
        y[0:2] = 2 * x
        g.register_output('w', x + d + y)
        what = [3 * x, x, d, y, None, 1.5, 'name', np.ones(2), [x]][k]
        g.register_output('z', what)
    out.append(RejectCase('what may be registered', {'k': range(9)}, w5,
                          lambda v: [E.eq(v['k'], num(0))]))

    # residuals
    ACT2 = ['nothing', 'residual', 'bracketed residual', 'itself', 'itself, bracketed']

    def w6(g, v):
        x = g.declare_input('x', shape=(2,), val=.5)
        u = g.create_implicit_output('u', shape=(2,))
        for t in range(2):
            k = int(v['c%d' % t])
            r = (t + 2) * u - x
            if k == 1:
                u.define_residual(r)
            elif k == 2:
                u.define_residual_bracketed(r, x1=-5., x2=5.)
            elif k == 3:
                u.define_residual(u)
            elif k == 4:
                u.define_residual_bracketed(u, x1=-5., x2=5.)
        if int(v['other']):
            w = g.create_implicit_output('w', shape=(2,))
            w.define_residual(w * 3 - x)

    def good6(v):
        a, b = v['c0'], v['c1']
        return [E.bor(*[E.band(is_(v, p, 1, 2), is_(v, q, 0)) for p, q in (('c0', 'c1'),
                                                                          ('c1', 'c0'))])]

    def bad6(v):
        return [is_(v, 'c0', 3, 4), is_(v, 'c1', 3, 4),
                E.band(is_(v, 'c0', 1, 2), is_(v, 'c1', 1, 2)),
                E.band(is_(v, 'c0', 0), is_(v, 'c1', 0))]
    out.append(RejectCase('definitions of residuals', {'c0': range(5), 'c1': range(5),
                                                      'other': range(2)}, w6, good6, bad6,
                          host='implicit'))

    # shapes of residuals and brackets
    def w7(g, v):
        x = g.declare_input('x', shape=(v['a'],), val=.5)
        u = g.create_implicit_output('u', shape=(v['b'],))
        u.define_residual(x * 2 if int(v['how']) else x * u)
    out.append(RejectCase('shape of a residual', {'a': range(1, 4), 'b': range(1, 4),
                                                 'how': range(2)}, w7,
                          lambda v: [E.eq(v['a'], v['b']), E.eq(v['how'], num(0))],
                          lambda v: [E.bnot(E.eq(v['a'], v['b']))], host='implicit'))

    # shape of a cyclic definition
    def w8(g, v):
        x = g.declare_input('x', shape=(v['a'],), val=.5)
        y = g.create_output('y', shape=(v['b'],))
        y.define(.1 * y + x)
    out.append(RejectCase('shape of a cyclic definition', {'a': range(1, 5), 'b': range(1, 5)},
                          w8, lambda v: [E.eq(v['a'], v['b'])]))
    return out


# ------------------------------------------------------------------- constants and non-variables
class Opaque(object):
    pass


JUNK = [None, 'x', [1., 2., 3.], (1., 2., 3.), {}, Opaque(), True]


def constants(tier):
    out = []
    binary = {'plus': lambda a, b: a + b, 'minus': lambda a, b: a - b,
              'times': lambda a, b: a * b, 'over': lambda a, b: a / b}
    # arrays of constants
    for nm, f in binary.items():
        for cs in ((3,), (2, 3), (1,), (3, 1), (2, 1, 3)):
            for r in (1, 2, 3):
                if r != len(cs) and tier == 'quick' and nm in ('minus', 'over'):
                    continue
                c = np.arange(1., 1 + np.prod(cs)).reshape(cs)

                def good(v, r=r, cs=cs):
                    return [E.eq(v['a%d' % i], num(cs[i])) for i in range(r)] \
                        if r == len(cs) else [F_]

                def bad(v, r=r, cs=cs):
                    # numpy could stretch the constant to the shape of the expression
                    if len(cs) > r:
                        return [T_]
                    return [E.bnot(E.eq(v['a%d' % (r - len(cs) + i)], num(n)))
                            for i, n in enumerate(cs) if n != 1]
                out += ops('%s constants %s' % (nm, cs), (r,), lambda v, a, f=f, c=c: f(a, c),
                           good, bad, rng=range(1, 5), kinds=('input', 'expr'))
    for cs in ((3,), (2, 3)):
        c = np.arange(1., 1 + np.prod(cs)).reshape(cs)
        for r in (1, 2):
            def good(v, r=r, cs=cs):
                return [E.eq(v['a%d' % i], num(cs[i])) for i in range(r)] \
                    if r == len(cs) else [F_]
            out += ops('power constants %s' % (cs,), (r,), lambda v, a, c=c: a ** c, good,
                       rng=range(1, 5))
    # a constant divisor may not be zero
    for sh in ((1,), (3,)):
        def w(g, v, sh=sh):
            x = g.declare_input('x', shape=sh, val=.5)
            d = int(v['d'])
            g.register_output('y', x / (float(d) if int(v['as']) == 0 else d if int(v['as']) == 1
                                        else np.full(sh, float(d))))
        out.append(RejectCase('constant divisor %s' % (sh,), {'d': range(-2, 3),
                                                              'as': range(3)}, w,
                              lambda v: [E.bnot(E.eq(v['d'], num(0)))]))

    def w0(g, v):
        x = g.declare_input('x', shape=(3,), val=.5)
        g.register_output('y', x / np.array([float(int(v['d%d' % i])) for i in range(3)]))
    out.append(RejectCase('constant divisors', {'d%d' % i: range(-1, 2) for i in range(3)}, w0,
                          lambda v: [E.bnot(E.eq(v['d%d' % i], num(0))) for i in range(3)]))
    # things that are not variables: k-th thing (0: a variable) as the j-th operand
    two = dict(binary)
    two.update({'power': None, 'matvec': ot.matvec, 'matmat': ot.matmat, 'dot': ot.dot,
                'inner': ot.inner, 'outer': ot.outer, 'cross': lambda a, b: ot.cross(a, b, axis=0),
                'sum': ot.sum, 'average': ot.average, 'max': lambda a, b: ot.max(a, b, rho=1.),
                'min': lambda a, b: ot.min(a, b, rho=1.),
                'einsum': lambda a, b: ot.einsum(a, b, subscripts='i,i->'),
                'conditional': lambda a, b: ot.if_else(a, b, b),
                'conditional 2': lambda a, b: ot.if_else(ot.sum(a), a, b),
                'conditional 3': lambda a, b: ot.if_else(ot.sum(a), b, a)})
    two.pop('power')
    for nm, f in two.items():
        arith = nm in binary
        if nm == 'conditional':
            shapes = ((1,), (3,))
        elif nm in ('matvec', 'matmat'):
            shapes = ((3, 3), (3,))
        else:
            shapes = ((3,), (3,))

        def w(g, v, f=f, shapes=shapes):
            a = g.declare_input('a', shape=shapes[0], val=.5)
            b = g.declare_input('b', shape=shapes[1], val=.5)
            k = int(v['k'])
            t = [None, *JUNK][k]
            args = [a, b]
            if k:
                args[int(v['j'])] = t
            g.register_output('y', f(*args))
        out.append(RejectCase('operands of ' + nm, {'k': range(len(JUNK) + 1), 'j': range(2)}, w,
                              lambda v: [E.eq(v['k'], num(0))],
                              # True is a number to Python
                              lambda v, arith=arith: [is_(v, 'k', *range(
                                  1, len(JUNK) + (0 if arith else 1)))]))
    one = {n: getattr(ot, n) for n in ('arccos', 'arcsin', 'arctan', 'cos', 'cosec', 'cosech',
                                       'cosh', 'cotan', 'cotanh', 'exp', 'log', 'log10', 'sec',
                                       'sech', 'sin', 'sinh', 'tan', 'tanh', 'pnorm', 'transpose',
                                       'max', 'min', 'sum', 'average')}
    one.update({'reshape': lambda a: ot.reshape(a, (2, 3)), 'rotmat': lambda a: ot.rotmat(a, 'x'),
                'expand': lambda a: ot.expand(a, (2, 3, 2), 'ij->ijk'),
                'reorder': lambda a: ot.reorder_axes(a, 'ij->ji')})
    for nm, f in one.items():
        def w(g, v, f=f):
            a = g.declare_input('a', shape=(2, 3), val=.5)
            k = int(v['k'])
            g.register_output('y', f([a, *JUNK, 1.5, np.ones((2, 3))][k]))
        out.append(RejectCase('operand of ' + nm, {'k': range(len(JUNK) + 3)}, w,
                              lambda v: [E.eq(v['k'], num(0))]))

    # exponents and keys of wrong types
    def w9(g, v):
        x = g.declare_input('x', shape=(3,), val=.5)
        g.register_output('y', x ** [2, 1.5, np.array([1., 2., 3.]), None, 'x', [1., 2.], x,
                                     Opaque()][int(v['k'])])
    out.append(RejectCase('exponents', {'k': range(8)}, w9, lambda v: [E.lt(v['k'], num(3))]))

    def w10(g, v):
        x = g.declare_input('x', shape=(3,), val=.5)
        g.register_output('y', 2 * x[[1, slice(0, 2), 'a', None, 1.5, [0, 1],
                                      slice(None)][int(v['k'])]])
    out.append(RejectCase('keys when reading', {'k': range(7)}, w10,
                          lambda v: [is_(v, 'k', 0, 1, 6)]))

    def w11(g, v):
        x = g.declare_input('x', shape=(3,), val=.5)
        y = g.create_output('y', shape=(3,))
        k = int(v['k'])
        key = [slice(0, 3), 'a', None, 1.5, [0, 1, 2], slice(0, 3), slice(0, 3), slice(0, 3)][k]
        y[key] = 2 * x if k < 5 else [None, 1.5, np.ones(3)][k - 5]
    out.append(RejectCase('keys and values when writing', {'k': range(8)}, w11,
                          lambda v: [E.eq(v['k'], num(0))]))

    def w12(g, v):
        vals = [1, 1.5, [1., 2., 3.], np.ones(3), np.ones(2), np.ones((3, 1)), None, 'x',
                [1., 2.]][int(v['k'])]
        f = [g.declare_input, g.create_indep_var][int(v['how'])]
        g.register_output('y', 2 * f('x', shape=(3,), val=vals))
    out.append(RejectCase('defaults', {'k': range(9), 'how': range(2)}, w12,
                          lambda v: [E.lt(v['k'], num(4))]))

    # shapes of values; only the default shape makes way for that of the value
    for cs in ((1,), (2,), (3,), (1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (1, 1, 1), (1, 2, 1)):
        for r in (1, 2, 3):
            def w13(g, v, r=r, cs=cs):
                f = [g.declare_input, g.create_indep_var, g.create_output][int(v['how'])]
                c = np.arange(1., 1 + np.prod(cs)).reshape(cs)
                x = f('x', shape=shape(v, 'a', r), val=c.tolist() if int(v['list']) else c)
                if int(v['how']) == 2:
                    x.define(.1 * x + 1)
                g.register_output('y', 2 * x)

            def good(v, r=r, cs=cs):
                eq = E.band(*[E.eq(v['a%d' % i], num(n)) for i, n in enumerate(cs)]) \
                    if r == len(cs) else F_
                return [E.bor(eq, E.eq(v['a0'], num(1)) if r == 1 else F_)]
            out.append(RejectCase('value %s of a shape of rank %d' % (cs, r),
                                  dict(dims('a', r, range(1, 4)), how=range(3), list=range(2)),
                                  w13, good))

            def w14(g, v, r=r, cs=cs):
                c = np.arange(1., 1 + np.prod(cs)).reshape(cs)
                u = g.create_implicit_output('u', shape=shape(v, 'a', r), val=c)
                u.define_residual(3 * u - 1)
            out.append(RejectCase('initial value %s of a state of rank %d' % (cs, r),
                                  dims('a', r, range(1, 4)), w14, good, host='implicit'))
    return out


F_ = E.FALSE
T_ = E.TRUE
