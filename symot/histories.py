"""Histories: set-ups, evaluations and linearizations of two models in every order.

The next action is a symbolic choice among those that are possible, so the path explorer goes
through every history of the given length.  Values after an evaluation and derivatives after a
linearization are compared with what the current inputs alone determine.
"""
import time

import numpy as np
from openmdao.api import Problem

from . import expr as E
from . import arr as A
from . import solve as S
from .arr import symbolic_numpy
from .expr import Unencodable
from .implicit import ImplicitCase, SymProb, find_component, local
from .model import SymModel, Vec, Jac, quiet
from .runner import Case, Outcome, _close, _worst, _env_of, _pick, _maybe


class Mismatch(Exception):
    """the real code departs from the specification in a concrete history"""


class Side(object):
    """a model

    make()   -> fresh instance
    spec(n, ins)   {output: array} after n set-ups of the instance; inputs(n) {name: shape}
    """
    actions = (('S', None), ('R', 'S'), ('L', 'R'))

    def __init__(self, make, inputs, outputs, spec, domain=None, sample=None, watch=(),
                 declared=None):
        self.make = make
        self.inputs = inputs if callable(inputs) else (lambda n: inputs)
        self.outputs = outputs if callable(outputs) else (lambda n: outputs)
        self.spec = spec
        self.domain = domain or (lambda ins: [])
        self.sample_ = sample
        self.watch = watch            # arrays of the user, never to be changed
        # {'design variables' | 'objectives' | 'constraints': {name: {bound: value}}}
        self.declared = declared

    @staticmethod
    def of(case, watch=()):
        """from a case of another check"""
        return Side(case.make, case.inputs, case.outputs, lambda n, ins: case.spec(ins),
                    case.domain, case.sample, watch)

    def sample(self, rng, n):
        if self.sample_:
            return self.sample_(rng)
        return {k: rng.uniform(-2., 2., size=s) for k, s in self.inputs(n).items()}

    # ------------------------------------------------------------ symbolic
    def start(self, tag):
        return SymRun(self, tag)

    def start_concrete(self):
        return RealRun(self)


def check_declared(side, prob):
    """what the optimizer is told, after any number of set-ups"""
    if side.declared is None:
        return
    m = prob.model
    for kind, want in side.declared.items():
        got = {'design variables': m.get_design_vars, 'objectives': m.get_objectives,
               'constraints': m.get_constraints}[kind](recurse=True, use_prom_ivc=False)
        prom = m._resolver.abs2prom if hasattr(m, '_resolver') else None
        got = {(prom(n, 'output') if prom and '.' in n else n): d for n, d in got.items()}
        if set(got) != set(want):
            raise Mismatch('the %s are %s, expected %s' % (kind, sorted(got), sorted(want)))
        for n, meta in want.items():
            for k, v in meta.items():
                if not np.all(np.asarray(got[n][k]) == v):
                    raise Mismatch('%s of %s is %r, expected %r' % (k, n, got[n][k], v))


def new_problem(model):
    return Problem(model=model, reports=False)


def set_up(prob):
    with quiet():
        prob.setup(force_alloc_complex=False)
        prob.final_setup()
    return prob


class SymRun(object):
    def __init__(self, side, tag):
        self.side = side
        self.tag = tag
        self.n = 0
        self.k = 0
        self.prob = None

    def S(self):
        if self.prob is None:
            with quiet():
                self.prob = new_problem(self.side.make())
        set_up(self.prob)
        self.n += 1
        check_declared(self.side, self.prob)
        self.m = SymModel(self.prob)
        return []

    def fresh_inputs(self):
        self.k += 1
        x = {n: A.fresh('%s@%s.%d.%d' % (n, self.tag, self.n, self.k), s)
             for n, s in self.side.inputs(self.n).items()}
        pc = E.Explorer.current.pc
        for c in self.side.domain(x):
            c = E.blift(c)
            if c is not E.TRUE and not any(p is c for p in pc):
                pc.append(c)
        return x

    def R(self):
        self.x = self.fresh_inputs()
        for n, v in self.x.items():
            self.m.set(n, v.copy())
        self.m.run()
        self.sp = {o: A.lift_arr(v) for o, v in self.side.spec(self.n, self.x).items()}
        out = []
        for o in self.side.outputs(self.n):
            v = A.lift_arr(self.m.get(o))
            s = self.sp[o]
            if v.shape != s.shape:
                raise ValueError('%s has shape %s, expected %s' % (o, v.shape, s.shape))
            out += [(a, b, '%s of %s' % (o, self.tag)) for a, b in zip(list(v.flat), s.flat)]
        return out

    def L(self):
        self.m.linearize()
        outs = list(self.side.outputs(self.n))
        wrt = list(self.x)
        t = self.m.totals(outs, wrt)
        ws = [e for w in wrt for e in self.x[w].view(np.ndarray).flat]
        out = []
        for o in outs:
            g = E.grad(list(self.sp[o].flat), ws)
            off = 0
            for w in wrt:
                size = self.x[w].size
                for r in range(len(g)):
                    for c in range(size):
                        out.append((t[o, w][r, c], g[r][off + c],
                                    'd%s/d%s of %s' % (o, w, self.tag)))
                off += size
        return out

    def comps(self):
        return self.m.comps if self.n else []


class RealRun(object):
    def __init__(self, side):
        self.side = side
        self.n = 0
        self.prob = None

    def S(self):
        with quiet():
            if self.prob is None:
                self.prob = new_problem(self.side.make())
            set_up(self.prob)
        self.n += 1
        check_declared(self.side, self.prob)

    def R(self, p):
        self.p = p
        for n, v in p.items():
            self.prob.set_val(n, np.asarray(v))
        with quiet():
            self.prob.run_model()
        self.x = {n: A.fresh('%s@c' % n, np.shape(v)) for n, v in p.items()}
        self.env = _env_of(self.x, p)
        self.sp = {o: A.lift_arr(v) for o, v in self.side.spec(self.n, self.x).items()}
        for o in self.side.outputs(self.n):
            want = np.array(E.evaluate(list(self.sp[o].flat), self.env), float)
            got = np.array(self.prob.get_val(o))
            if got.shape != self.sp[o].shape:
                raise Mismatch('%s has shape %s, expected %s' % (o, got.shape, self.sp[o].shape))
            if not _close(np.ravel(got), want, 1e-7):
                i = _worst(np.ravel(got), want)
                raise Mismatch('%s[%d] = %r, expected %r' % (o, i, np.ravel(got)[i], want[i]))

    def L(self, p=None):
        outs = list(self.side.outputs(self.n))
        wrt = list(self.x)
        with quiet():
            t = self.prob.compute_totals(of=outs, wrt=wrt)
        ws = [e for w in wrt for e in self.x[w].view(np.ndarray).flat]
        for o in outs:
            g = E.grad(list(self.sp[o].flat), ws)
            off = 0
            for w in wrt:
                size = self.x[w].size
                want = np.array(E.evaluate([g[r][off + c] for r in range(len(g))
                                            for c in range(size)], self.env), float)
                got = np.ravel(_pick(t, o, w))
                off += size
                if got.shape != want.shape or not _close(got, want, 1e-6):
                    i = _worst(got, want) if got.shape == want.shape else -1
                    raise Mismatch('d%s/d%s entry %d = %r, expected %r' % (o, w, i, got[i],
                                                                         want[i]))


# ------------------------------------------------------------------------------- implicit
class ImplicitSide(object):
    """an implicit component inside a model: residuals (A), partials (J), linear solves (X)"""
    actions = (('S', None), ('A', 'S'), ('J', 'S'), ('X', 'J'))
    watch = ()

    def __init__(self, case):
        assert isinstance(case, ImplicitCase)
        self.case = case

    def sample(self, rng, n):
        return self.case.sample(rng)

    def start(self, tag):
        return SymImplicit(self, tag)

    def start_concrete(self):
        return RealImplicit(self)


class SymImplicit(object):
    def __init__(self, side, tag):
        self.side, self.case, self.tag = side, side.case, tag
        self.n = self.k = 0
        self.prob = None

    def S(self):
        if self.prob is None:
            with quiet():
                self.prob = new_problem(self.case.build_model())
        set_up(self.prob)
        self.n += 1
        self.comp = find_component(self.prob, self.case.which)
        self.jac = Jac(self.comp)
        self.comp.prob = SymProb(self.comp.prob)
        self.ni, self.no = local(self.comp, 'input'), local(self.comp, 'output')
        return []

    def point(self):
        self.k += 1
        x = {n: A.fresh('%s@%s.%d' % (n, self.tag, self.k), s)
             for n, s in self.case.inputs.items()}
        pc = E.Explorer.current.pc
        for c in self.case.domain(x):
            c = E.blift(c)
            if c is not E.TRUE and not any(p is c for p in pc):
                pc.append(c)
        return x

    def vecs(self, x):
        return ({n: x[n].copy() for n in self.ni}, {n: x[n].copy() for n in self.no})

    def A(self):
        x = self.point()
        ins, outs = self.vecs(x)
        r = {n: A.fresh('blank:' + n, s) for n, s in self.case.states.items()}
        with symbolic_numpy(), quiet():
            self.comp.apply_nonlinear(Vec(ins, True), Vec(outs, True), Vec(r))
        R = self.case.res(x)
        return [(a, b, 'residual %s of %s' % (n, self.tag)) for n in self.case.states
                for a, b in zip(A.lift_arr(r[n]).flat, A.lift_arr(R[n]).flat)]

    def J(self):
        x = self.x = self.point()
        ins, outs = self.vecs(x)
        j = self.jac
        with symbolic_numpy(), quiet():
            self.comp.linearize(Vec(ins, True), Vec(outs, True), j)
        R = self.case.res(x)
        out = []
        for n in self.case.states:
            for w in self.case.inputs:
                g = E.grad(list(A.lift_arr(R[n]).flat), list(x[w].view(np.ndarray).flat))
                t = self.case._entry(j, n, w)
                for r in range(t.shape[0]):
                    for c in range(t.shape[1]):
                        out.append((t[r, c], g[r][c], 'dR_%s/d%s of %s' % (n, w, self.tag)))
        return out

    def X(self):
        self.k += 1
        states = self.case.states
        out = []
        for mode in ('fwd', 'rev'):
            rhs = {n: A.fresh('rhs@%s.%d:%s' % (self.tag, self.k, n), s)
                   for n, s in states.items()}
            sol = {n: A.fresh('blank:' + n, s) for n, s in states.items()}
            a = {n: v.copy() for n, v in rhs.items()}
            with symbolic_numpy(), quiet():
                if mode == 'fwd':
                    self.comp.solve_linear(Vec(sol), Vec(a, True), mode)
                else:
                    self.comp.solve_linear(Vec(a, True), Vec(sol), mode)
            M = np.array(self.case._mat(self.x), dtype=object)
            if mode == 'rev':
                M = M.T
            sv = [e for n in states for e in sol[n].view(np.ndarray).flat]
            rv = [e for n in states for e in rhs[n].view(np.ndarray).flat]
            for r in range(M.shape[0]):
                s = E.ZERO
                for c in range(M.shape[1]):
                    s = E.add(s, E.mul(E.lift(M[r, c]), sv[c]))
                out.append((s, rv[r], '%s solve, equation %d of %s' % (mode, r, self.tag)))
        return out

    def comps(self):
        return [self.comp] + self.comp.prob.sym.comps if self.n else []


class RealImplicit(object):
    def __init__(self, side):
        self.case = side.case
        self.n = 0
        self.prob = None

    def S(self):
        with quiet():
            if self.prob is None:
                self.prob = new_problem(self.case.build_model())
            set_up(self.prob)
        self.n += 1
        self.comp = find_component(self.prob, self.case.which)
        self.jac = Jac(self.comp)
        self.ni, self.no = local(self.comp, 'input'), local(self.comp, 'output')

    def _steps(self, what, p):
        self.x = {n: A.fresh('%s@0' % n, s) for n, s in self.case.inputs.items()}
        self.p = p
        return ({n: np.array(p[n], float) for n in self.ni},
                {n: np.array(p[n], float) for n in self.no})

    def _verdict(self, steps, p, ds=None):
        bad = self.case.compare([p], {'steps': steps, 'ds': [ds]})
        if bad:
            raise Mismatch(bad)

    def A(self, p):
        ins, outs = self._steps('apply', p)
        r = {n: np.full(s, np.nan) for n, s in self.case.states.items()}
        with quiet():
            self.comp.apply_nonlinear(ins, outs, r)
        self._verdict([('apply', 0, r)], p)

    def J(self, p):
        self.pj = p
        ins, outs = self._steps('lin', p)
        j = self.jac
        with quiet():
            self.comp.linearize(ins, outs, j)
        names = list(self.case.states)
        self._verdict([('lin', 0, {
            (of, w): np.array([[float(E.evaluate([e], {})[0]) for e in row]
                               for row in self.case._entry(j, of, w)]
                              ).reshape(int(np.prod(self.case.states[of])), -1)
            for of in names for w in self.ni + self.no})], p)

    def X(self, p=None):
        rng = np.random.default_rng(7)
        names = list(self.case.states)
        ds = {n: rng.uniform(-1, 1, size=s) for n, s in self.case.states.items()}
        steps = []
        for mode in ('fwd', 'rev'):
            rhs = {n: ds[n].copy() for n in names}
            sol = {n: np.full(self.case.states[n], np.nan) for n in names}
            with quiet():
                if mode == 'fwd':
                    self.comp.solve_linear(sol, rhs, mode)
                else:
                    self.comp.solve_linear(rhs, sol, mode)
            steps.append((mode, 0, sol))
        self._verdict(steps, self.pj, ds)


# ------------------------------------------------------------------------------- histories

class HistoryCase(object):
    kind = 'history'

    def __init__(self, id, sides, length=5, setups=2, twice=True, timeout=20.):
        self.id = id
        self.sides = sides            # one or two
        self.length = length
        self.setups = setups          # of each model, at most
        self.timeout = timeout

    # ------------------------------------------------------------ possible actions
    def legal(self, h, last=False):
        out = []
        for i, side in enumerate(self.sides):
            if i and h and not any(j < i for _, j in h) and self.same():
                continue              # the models play the same part
            if i and not h and self.same():
                continue
            seen = set()
            n = 0
            for a, j in h:
                if j != i:
                    continue
                if a == 'S':
                    seen = set()
                    n += 1
                seen.add(a)
            for a, need in side.actions:
                if need and need not in seen:
                    continue
                if a == 'S' and (n >= self.setups or h and h[-1] == ('S', i)):
                    continue
                if last and a == 'S':
                    continue
                out.append((a, i))
        return out

    def same(self):
        return len(self.sides) == 2 and self.sides[0] is self.sides[1]

    # ------------------------------------------------------------ symbolic
    def exec(self):
        h = []
        runs = [s.start('model %d' % i) for i, s in enumerate(self.sides)]
        before = [[np.array(w) for w in s.watch] for s in self.sides]
        obs = []
        self.done = h
        for k in range(self.length):
            acts = self.legal(h, k == self.length - 1)
            if not acts:
                break
            v = E.var('action %d' % k)
            act = acts[-1]
            for c, a in enumerate(acts[:-1]):
                if bool(E.eq(v, E.const(c))):
                    act = a
                    break
            h.append(act)
            a, i = act
            with quiet():
                obs.append(getattr(runs[i], a)())
        for s, b in zip(self.sides, before):
            for w, o in zip(s.watch, b):
                if not (np.array_equal(w, o)):
                    raise ValueError('an array of the user was changed')
        return h, runs, obs

    def run(self, seed, tier):
        out = Outcome()
        t0 = time.time()
        rng = np.random.default_rng(seed)
        doc = self.draw(self.long_history(), rng)
        bad = self.replay(doc)
        out.conformance += 1
        if bad:
            return out.violate(bad, doc)
        seen = {}
        general = S.path_checker()

        def checker(conds):
            """branches on the actions alone are about integers"""
            zs = []
            for c in conds:
                z = _choice(c)
                if z is None:
                    return general(conds)
                zs.append(z)
            s = S.z3.Solver()
            s.add(*zs)
            t = time.time()
            r = str(s.check())
            S.STATS.add(r, time.time() - t)
            return r
        ex = E.Explorer(checker, max_paths=20000)
        for (kind, res), pc in ex.run(self.exec):
            out.paths += 1
            if kind != 'ok':
                h = list(self.done)
                for _ in range(3):
                    doc = self.draw(h, rng)
                    bad = self.replay(doc)
                    if bad:
                        return out.violate(bad, doc)
                out.inconclusive('symbolic execution of %s raised %s: %s' % (
                    show(h), type(res).__name__, res))
                continue
            h, runs, obs = res
            for r in runs:
                for c in r.comps():
                    t = type(c)
                    if t.__module__.startswith('omtools'):
                        for f in ('compute', 'compute_partials', 'apply_nonlinear', 'linearize',
                                  'solve_linear', 'setup'):
                            if f in t.__dict__:
                                out.functions.add('%s.%s.%s' % (t.__module__, t.__name__, f))
            branching = [c for c in pc if _choice(c) is None]
            for group in obs:
                if not group:
                    continue
                pairs = [(E.lift(a), E.lift(b)) for a, b, _ in group]
                vs = set(v.id for v in E.variables([e for p in pairs for e in p]))
                # what the path knows about the inputs of this action
                conds = [c for c in branching if any(v.id in vs for v in E.variables([c]))]
                key = (tuple((a.id, b.id) for a, b in pairs), tuple(c.id for c in conds))
                if key in seen:
                    continue
                seen[key] = pairs, conds          # kept alive: identities stay unique
                self.decide(out, pairs, [lab for _, _, lab in group], conds, h, rng)
                if out.status == 'violated':
                    return out
        if ex.truncated:
            out.inconclusive('path bound reached')
        if out.paths == 0:
            out.inconclusive('no history: vacuous case')
        out.wall = time.time() - t0
        return out

    def decide(self, out, todo, labels, conds, h, rng):
        if conds:
            rr = E.resolve([e for p in todo for e in p], conds)
            todo = [(E.lift(a), E.lift(b)) for a, b in zip(rr[::2], rr[1::2])]
        out.obligations += len(todo)
        r = S.equal_all(todo, conds, timeout=self.timeout, labels=labels)
        if r.status != 'holds':
            docs = [self.from_env(h, r.env, rng)] if r.env else []
            for doc in docs + [self.draw(h, rng) for _ in range(3)]:
                bad = self.replay(doc)
                if bad:
                    return out.violate(bad, doc)
            if r.status == 'violated':
                r2 = S.equal_all(todo, conds, timeout=self.timeout, labels=labels, tol=1e-9)
                if r2.status == 'holds':
                    out.tolerant += len(todo)
                    return
            out.inconclusive('%s: %s: %s' % (show(h), r.status, r.detail or
                                             [w[0] for w in (r.which or [])][:2]))
            return
        if not out.twin:
            r = S.equal_all([(E.add(todo[0][1], E.ONE), todo[0][0])], conds, timeout=10.)
            out.twin = 1 if r.status == 'violated' else 0
            if r.status == 'holds':
                out.inconclusive('vacuous: assumptions unsatisfiable')
            out.sample = '%s: after %s: %s == %s' % (self.id, show(h), E.show(todo[0][0], 3),
                                                    E.show(todo[0][1], 3))

    # ------------------------------------------------------------ concrete
    def long_history(self):
        h = []
        for _ in range(2):
            for i, s in enumerate(self.sides):
                h += [(a, i) for a, _ in s.actions]
            for i, s in enumerate(self.sides):
                h += [(a, i) for a, need in s.actions if a != 'S']
        return h

    def draw(self, h, rng):
        n = [0] * len(self.sides)
        vals = []
        for a, i in h:
            if a == 'S':
                n[i] += 1
                vals.append(None)
            else:
                vals.append({k: np.asarray(v).tolist()
                             for k, v in self.sides[i].sample(rng, n[i]).items()})
        return {'case': self.id, 'actions': [[a, i] for a, i in h], 'values': vals}

    def from_env(self, h, env, rng):
        """the history with the values of a model of the solver"""
        doc = self.draw(h, rng)
        n, k = [0] * len(self.sides), [0] * len(self.sides)
        for p, (a, i) in zip(doc['values'], h):
            if a == 'S':
                n[i] += 1
                continue
            if a in ('L',):
                continue
            k[i] += 1
            if a == 'X':
                continue
            tag = '%s.%d' % ('model %d' % i, k[i]) if isinstance(self.sides[i], ImplicitSide) \
                else 'model %d.%d.%d' % (i, n[i], k[i])
            for name, v in p.items():
                v = np.asarray(v, float)
                sym = A.fresh('%s@%s' % (name, tag), v.shape).view(np.ndarray)
                for idx in np.ndindex(*v.shape):
                    x = env.get(sym[idx].args[0])
                    if x is not None:
                        v[idx] = float(x)
                p[name] = v.tolist()
        return doc

    def replay(self, doc):
        """the history on the real code; what is wrong with it, or None"""
        before = [[np.array(w) for w in s.watch] for s in self.sides]
        runs = [s.start_concrete() for s in self.sides]
        h = []
        try:
            for (a, i), p in zip(doc['actions'], doc['values']):
                h.append((a, i))
                if a == 'S':
                    runs[i].S()
                else:
                    getattr(runs[i], a)({k: np.array(v) for k, v in p.items()})
        except Mismatch as e:
            return 'after %s: %s' % (show(h), e)
        except (Exception, SystemExit) as e:
            return 'after %s the real code fails: %s: %s' % (show(h), type(e).__name__,
                                                             str(e)[:300])
        for s, b in zip(self.sides, before):
            for w, o in zip(s.watch, b):
                if not np.array_equal(w, o):
                    return 'after %s an array of the user was changed to %s' % (show(h),
                                                                               w.tolist())
        return None


def show(h):
    return ' '.join('%s%d' % (a, i) for a, i in h)


def _choice(c):
    if c.op == 'not':
        z = _choice(c.args[0])
        return None if z is None else S.z3.Not(z)
    if c.op == 'eq':
        a, b = c.args
        for a, b in ((a, b), (b, a)):
            if a.op == 'v' and str(a.args[0]).startswith('action ') and b.op == 'c':
                return S.z3.Int(a.args[0]) == int(b.args[0])
    return None
