"""Programs whose structure, and whose order of set iteration, is symbolic.

`list(set(...))` of expressions has no defined order.  While a program is built, the name
`set` in the modules of omtools is bound to a set that iterates over expressions in the order
of symbolic ranks; every comparison of ranks is a branch of the exploration.  Booleans drawn
from a Choice are symbolic as well (is there an edge from i to j, is i registered, ...).
"""
import builtins
import contextlib
import os
import sys
import time
import traceback

import numpy as np

from . import expr as E
from . import arr as A
from . import solve as S
from . import runner as R
from .expr import Unencodable
from .model import SymModel, setup_problem, quiet
import omtools.api as ot  # noqa: F401
from omtools.core.variable import Variable
import z3

_real_set = builtins.set


class Order(object):
    """the order in which sets of expressions are visited"""
    current = None

    def __init__(self, symbolic=None, ranks=None, base=1, split=False):
        self.symbolic = symbolic          # k -> bool: is the k-th expression seen free to move
        self.ranks = ranks                # concrete ranks by index (replay)
        self.base = base                  # 1: fixed ones in creation order, -1: reversed
        self.split = split                # sets of different sizes order independently
        self.index = {}
        self.keep = []

    def k(self, v):
        i = self.index.get(id(v))
        if i is None:
            i = self.index[id(v)] = len(self.index)
            self.keep.append(v)
        return i

    def rank(self, v, n):
        i = self.k(v)
        tag = 'L' if self.split and n > 4 else ''
        name = 'rank%s:%d' % (tag, i)
        if self.ranks is not None:
            return E.const(E.to_fraction(self.ranks.get(name, self.base * i)))
        if self.symbolic is None or not self.symbolic(i):
            return E.const(self.base * i)
        return E.var(name)

    def sort(self, vs):
        vs = sorted(vs, key=self.k)       # canonical starting point
        n = len(vs)
        out = []
        for v in vs:
            r = self.rank(v, n)
            lo, hi = 0, len(out)
            while lo < hi:
                mid = (lo + hi) // 2
                if bool(E.lt(r, out[mid][0])):
                    hi = mid
                else:
                    lo = mid + 1
            out.insert(lo, (r, v))
        return [v for _, v in out]


class OrderedSet(_real_set):
    def __iter__(self):
        o = Order.current
        if o is None:
            return _real_set.__iter__(self)
        items = list(_real_set.__iter__(self))
        if items and all(isinstance(i, Variable) for i in items):
            return iter(o.sort(items))
        return iter(items)

    def __hash__(self):
        raise TypeError('unhashable type')

    def pop(self):
        for v in self:
            self.discard(v)
            return v
        raise KeyError('pop from an empty set')

    def copy(self):
        return OrderedSet(_real_set.__iter__(self))

    def _bin(name):
        f = getattr(_real_set, name)

        def g(self, *a):
            r = f(self, *a)
            return OrderedSet(r) if isinstance(r, _real_set) else r
        return g
    union = _bin('union')
    intersection = _bin('intersection')
    difference = _bin('difference')
    symmetric_difference = _bin('symmetric_difference')
    __or__ = _bin('__or__')
    __and__ = _bin('__and__')
    __sub__ = _bin('__sub__')
    __xor__ = _bin('__xor__')
    __ror__ = _bin('__ror__')


@contextlib.contextmanager
def ordered(order):
    mods = [m for n, m in list(sys.modules.items()) if n.startswith('omtools') and m]
    had = [(m, m.__dict__.get('set')) for m in mods]
    prev = Order.current
    Order.current = order
    for m in mods:
        m.set = OrderedSet
    try:
        yield
    finally:
        Order.current = prev
        for m, h in had:
            if h is None:
                del m.set
            else:
                m.set = h


class Choice(object):
    """symbolic booleans; on replay, their values"""

    def __init__(self, values=None):
        self.values = values
        self.used = {}

    def __call__(self, name):
        if self.values is not None:
            return bool(self.values.get(name, False))
        b = E.boolvar(name)
        return bool(b)

    def int(self, name, n):
        """an integer in [0, n)"""
        for i in range(n - 1):
            if self('%s=%d' % (name, i)):
                return i
        return n - 1


class IncChecker(object):
    """one solver for a whole exploration"""

    def __init__(self):
        self.enc = S.Encoder()
        self.solver = z3.Solver()
        self.solver.set('timeout', 5000)
        self.stack = []

    def __call__(self, conds):
        t0 = time.time()
        k = 0
        while k < len(self.stack) and k < len(conds) and self.stack[k] is conds[k]:
            k += 1
        while len(self.stack) > k:
            self.solver.pop()
            self.stack.pop()
        for c in conds[k:]:
            z = self.enc.boolean(c)
            self.solver.push()
            self.solver.add(z)
            self.stack.append(c)
        r = str(self.solver.check())
        S.STATS.add(r, time.time() - t0)
        return r


class GraphCase(object):
    """build(g, ch) writes a program into g and returns {output: expected value}, where the
    expected value is a list of Sym over x[0], x[1], ... (scalars or flat arrays)"""

    def __init__(self, id, build, symbolic=None, base=1, split=False, max_paths=60000,
                 reverse=False, ninputs=1, unused=True, assume=None, cut=(), derivs=False, contracts=True):
        self.id = id
        self.build = build
        self.symbolic = symbolic
        self.base = base
        self.split = split
        self.max_paths = max_paths
        self.reverse = reverse
        self.unused = unused
        self.assume = assume or []
        # outputs defined in terms of themselves: their users see xvar(name, i), the value
        # computed is compared with what spec says it is in terms of those
        self.cut = cut if callable(cut) else (lambda spec: cut)
        self.derivs = derivs
        self.contracts = contracts        # sweeps converge from every start

    def once(self, order, ch):
        spec = {}
        case = self

        class M(ot.Group):
            def setup(self):
                self.reverse_branch_sorting = case.reverse
                spec.clear()
                spec.update(case.build(self, ch))
        with ordered(order):
            prob = setup_problem(M())
        m = SymModel(prob)
        for a in m.sources:
            u = m.user[a]
            n = int(np.prod(m.shape[a]))
            m.set(u, arrvars(u, n).reshape(m.shape[a]))
        cut = [c for c in self.cut(spec) if c in m.by_prom_out]
        for c in cut:
            n = int(np.prod(m.shape[m.by_prom_out[c]]))
            m.cut_at(c, arrvars(c, n).reshape(m.shape[m.by_prom_out[c]]))
        m.run()
        got = {}
        problems = []
        cuts = _real_set(m.by_prom_out[c] for c in cut)
        # a component may run before the output it uses only if that output needs it
        m.feedback = [f for f in m.feedback if f[2] not in cuts or not reaches(m, f[0], f[2])]
        for n in spec:
            try:
                got[n] = list(m.get(n).view(np.ndarray).flat)
            except KeyError:
                problems.append('output %s is missing' % n)
        for f in m.feedback:
            problems.append('%s runs before %s, which it needs' % (f[0], f[2]))
        if self.unused:
            srcs = _real_set(m.conns.values())
            for a in m.owner:
                if a not in m.sources and a not in srcs and m.prom[a] not in spec:
                    problems.append('%s is computed and nothing needs it' % m.prom[a])
        return m, spec, got, problems

    def run(self, seed, tier):
        out = R.Outcome()
        t0 = time.time()
        ex = E.Explorer(IncChecker(), max_paths=self.max_paths)

        def fn():
            return self.once(Order(self.symbolic, base=self.base, split=self.split), Choice())
        confirmed = 0
        for (kind, res), pc in ex.run(fn, [E.blift(a) for a in self.assume]):
            out.paths += 1
            if kind != 'ok':
                st, env = sat_model(pc)
                doc = self.doc(env)
                bad = self.replay(doc)
                if bad:
                    return out.violate('%s' % bad, doc)
                out.inconclusive('symbolic execution raised %s: %s' % (type(res).__name__, res))
                if os.environ.get('SYMOT_DEBUG'):
                    traceback.print_exception(type(res), res, res.__traceback__)
                continue
            m, spec, got, problems = res
            pairs = [(g, s) for n in got for g, s in zip(got[n], spec[n])]
            if self.derivs and not problems:
                pairs += self.deriv_pairs(m, spec, got)
            bad = bool(problems) or any(len(got[n]) != len(spec[n]) for n in got)
            env = None
            if not bad and pairs:
                out.obligations += len(pairs) + len(m.conns)
                r = S.equal_all(pairs, pc)
                if r.status == 'violated':
                    bad = True
                elif r.status == 'unknown':
                    out.inconclusive(r.detail)
                if not out.twin:
                    r = S.equal_all([(E.add(pairs[0][0], E.ONE), pairs[0][1])], pc)
                    out.twin = 1 if r.status == 'violated' else 0
            for c in m.comps:
                t = type(c)
                if t.__module__.startswith('omtools'):
                    out.functions.add(t.__module__ + '.' + t.__name__ + '.compute')
            out.functions |= {'omtools.core.group._post_setup', 'omtools.core.graph.*'}
            if bad or out.paths in (1, 7, 50, 400):
                st, env = sat_model(pc)
                doc = self.doc(env)
                what = self.replay(doc)
                out.conformance += 1
                if what:
                    return out.violate(what, doc)
                if bad:
                    out.inconclusive('not reproduced: %s' % (problems[:1],))
            if out.sample is None and pairs:
                out.sample = '%s: %s under %s' % (self.id, E.show(E.lift(pairs[-1][0]), 4),
                                                  [E.showb(c, 3) for c in pc][:4])
        if ex.truncated:
            out.inconclusive('path bound reached')
        out.wall = time.time() - t0
        return out

    def deriv_pairs(self, m, spec, got):
        m.linearize()
        wrt = sorted(m.by_user) + [c for c in self.cut(spec) if c in m.by_prom_out]
        tot = m.totals(sorted(got), wrt)
        sizes = [int(np.prod(m.shape[m._wrt(w)])) for w in wrt]
        ws = [xvar(w, i) for w, n in zip(wrt, sizes) for i in range(n)]
        pairs = []
        for o in sorted(got):
            g = E.grad([E.lift(s) for s in spec[o]], ws)
            off = 0
            for w, n in zip(wrt, sizes):
                t = tot[o, w]
                for r in range(t.shape[0]):
                    for c in range(n):
                        pairs.append((t[r, c], g[r][off + c]))
                off += n
        return pairs

    def doc(self, env):
        return {'case': self.id, 'choices': {k: bool(v) for k, v in env.items()
                                             if not k.startswith('rank')},
                'ranks': {k: float(v) for k, v in env.items() if k.startswith('rank')}}

    def replay(self, doc):
        """build and run the real model with that order of iteration"""
        order = Order(None, ranks=doc['ranks'], base=self.base)
        try:
            m, spec, got, problems = self.once(order, Choice(doc['choices']))
        except Unencodable as e:
            return None
        except (Exception, SystemExit) as e:
            return 'the real code fails: %s: %s' % (type(e).__name__, str(e)[:200])
        if problems:
            return problems[0]
        order = Order(None, ranks=doc['ranks'], base=self.base)
        rng = np.random.default_rng(3)
        case = self
        sp = {}
        ch = Choice(doc['choices'])

        class M(ot.Group):
            def setup(self):
                self.reverse_branch_sorting = case.reverse
                sp.update(case.build(self, ch))
        with ordered(order):
            prob = setup_problem(M())
        env = {}
        for a in m.sources:
            u = m.user[a]
            v = rng.uniform(.2, 1.5, size=tuple(m.shape[a]))
            prob.set_val(u, v)
            for i, x in enumerate(v.flatten()):
                env['%s[%d]' % (u, i)] = float(x)
        cut = [c for c in self.cut(sp)]
        start = {c: rng.uniform(.2, 1., size=prob.get_val(c).shape) for c in cut}
        for c in cut:
            prob.set_val(c, start[c])
            for i, x in enumerate(start[c].flatten()):
                env['%s[%d]' % (c, i)] = float(x)
        with quiet():
            prob.run_model()
            bad = self.compare(prob, sp, env, cut[:1] if len(cut) == 1 else []) if cut else \
                self.compare(prob, sp, env, list(sp))
            if bad or not cut or not self.contracts:
                return bad
            for _ in range(300):
                before = [np.array(prob.get_val(c)) for c in cut]
                prob.run_model()
                if max(np.max(np.abs(prob.get_val(c) - b)) for c, b in zip(cut, before)) < 1e-14:
                    break
            else:
                return 'repeated sweeps do not converge'
            # spec at the fixed point
            for c in cut:
                for i, x in enumerate(np.ravel(prob.get_val(c))):
                    env['%s[%d]' % (c, i)] = float(x)
            bad = self.compare(prob, sp, env, list(sp))
            if bad:
                return 'at the fixed point: ' + bad
            if self.derivs:
                return self.compare_totals(prob, m, sp, env, cut)
        return None

    def compare(self, prob, sp, env, names):
        for n in names:
            want = np.array(E.evaluate([E.lift(s) for s in sp[n]], env), float)
            have = np.ravel(np.array(prob.get_val(n)))
            if have.shape != want.shape or not R._close(have, want, 1e-7):
                return '%s = %s, expected %s' % (n, have, want)
        return None

    def compare_totals(self, prob, m, sp, env, cut):
        """OpenMDAO's total derivatives with the implicit function theorem"""
        from openmdao.api import DirectSolver
        prob.model.linear_solver = DirectSolver()
        prob.setup()
        for u in m.by_user:
            n = int(np.prod(m.shape[m.by_user[u]]))
            prob.set_val(u, np.array([env['%s[%d]' % (u, i)] for i in range(n)]).reshape(
                m.shape[m.by_user[u]]))
        for c in cut:
            prob.set_val(c, np.array([env['%s[%d]' % (c, i)] for i in range(
                np.size(prob.get_val(c)))]).reshape(np.shape(prob.get_val(c))))
        prob.run_model()
        srcs = sorted(m.by_user)
        if not srcs:
            return None
        t = prob.compute_totals(of=sorted(sp), wrt=srcs)
        ys = [xvar(c, i) for c in cut for i in range(len(sp[c]))]
        fs = [E.lift(e) for c in cut for e in sp[c]]
        for u in srcs:
            n = int(np.prod(m.shape[m.by_user[u]]))
            xs = [xvar(u, i) for i in range(n)]
            ev = lambda rows: np.array([E.evaluate(list(r), env) for r in rows],
                                       float).reshape(len(rows), -1)
            dy = np.linalg.solve(np.eye(len(ys)) - ev(E.grad(fs, ys)), ev(E.grad(fs, xs)))
            for o in sorted(sp):
                es = [E.lift(e) for e in sp[o]]
                want = ev(E.grad(es, xs)) + ev(E.grad(es, ys)) @ dy
                have = np.array(t[o, u])
                if not R._close(np.ravel(have), np.ravel(want), 1e-6):
                    return 'd%s/d%s = %s, expected %s' % (o, u, np.ravel(have), np.ravel(want))
        return None


def reaches(m, comp, out):
    """does the component contribute to the output?"""
    target = m.owner[out].pathname
    succ = {}
    for i, src in m.conns.items():
        if src in m.owner:
            succ.setdefault(m.owner[src].pathname, []).append(i.rsplit('.', 1)[0])
    seen, todo = {comp}, [comp]
    while todo:
        c = todo.pop()
        if c == target:
            return True
        for d in succ.get(c, []):
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return False


def sat_model(pc):
    enc = S.Encoder()
    zs = [enc.boolean(c) for c in pc]
    s = z3.Solver()
    s.add(*(zs + enc.axioms))
    r = str(s.check())
    if r != 'sat':
        return r, {}
    m = s.model()
    env = S.model_env(enc, m)
    for d in m.decls():
        if d.range() == z3.BoolSort():
            env[d.name()] = z3.is_true(m[d])
    return r, env


def xvar(name, i=0):
    return E.var('%s[%d]' % (name, i))


def arrvars(name, n):
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = xvar(name, i)
    return o.view(A.SymArray)
