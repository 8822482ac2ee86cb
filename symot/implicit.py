"""Implicit components: the real methods of omtools' ImplicitComponent, run symbolically.

The component is set up by the real code inside a real OpenMDAO model.  Its inner Problem is
then replaced by a stand-in whose run_model / compute_totals are the symbolic sweep of the same
inner model, so that apply_nonlinear, linearize, solve_linear and solve_nonlinear, which the
real component implements on top of it, work on symbolic values.
"""
import numpy as np

from openmdao.api import DirectSolver, NewtonSolver

from . import expr as E
from . import arr as A
from .arr import SymArray, symarray, fresh, symbolic_numpy
from .expr import Unencodable
from .model import SymModel, Vec, Jac, setup_problem, quiet
from .runner import Case, _close, _worst, _env_of, _pick

import omtools.api as ot


class SymProb(object):
    """stands in for the Problem inside an ImplicitComponent"""

    def __init__(self, prob):
        with quiet():
            prob.final_setup()
        self.model = prob.model
        self.real = prob
        self.sym = SymModel(prob)
        self.runs = 0
        for a in self.sym.sources:
            u = self.sym.user.get(a)
            if a.startswith('_auto_ivc.'):
                # whatever an earlier evaluation left there
                self.sym.vals[a] = fresh('stale:' + a, tuple(self.sym.shape[a]))
            else:
                self.sym.vals[a] = symarray(np.array(prob.get_val(u)))

    def set_val(self, name, val, **kw):
        if kw:
            raise Unencodable('set_val with options')
        s = self.sym
        if name in s.by_user:
            a = s.by_user[name]
        elif name in s.by_prom_out:
            a = s.by_prom_out[name]
        else:
            raise KeyError(name)
        v = symarray(val)
        if v.ndim == 0:
            full = np.empty(s.shape[a], dtype=object)
            full[...] = v.view(np.ndarray)[()]
            v = full.view(SymArray)
        s.vals[a] = v.reshape(s.shape[a]).copy()

    def get_val(self, name, **kw):
        if kw:
            raise Unencodable('get_val with options')
        return self.sym.get(name).copy()

    __setitem__ = set_val
    __getitem__ = get_val

    def run_model(self, *a, **k):
        self.runs += 1
        self.sym.run()
        if self.sym.feedback:
            raise Unencodable('feedback inside the implicit component')

    def compute_totals(self, of=None, wrt=None, **k):
        self.sym.linearize()
        return {k: symarray(v) for k, v in self.sym.totals(list(of), list(wrt)).items()}


def find_component(prob, k=0):
    cs = [c for c in prob.model.system_iter(include_self=True, recurse=True)
          if isinstance(c, ot.ImplicitComponent)]
    return cs[k]


def local(comp, io):
    n = len(comp.pathname) + 1 if comp.pathname else 0
    return [a[n:] for a in comp._var_abs2meta[io]]


class _Comps(object):
    def __init__(self, comps):
        self.comps = comps


SCHEDULES = {
    'a0l0s0l1s1a1': [('apply', 0), ('lin', 0), ('solve', 0), ('lin', 1), ('solve', 1),
                     ('apply', 1)],
    'a0a1l0s0a1s0': [('apply', 0), ('apply', 1), ('lin', 0), ('solve', 0), ('apply', 1),
                     ('solve', 0)],
}


class ImplicitCase(Case):
    """residual values, partials, and the linear solves in both modes, at each point of a history

    body(c)    the setup of the component
    inputs     {name: shape}; loads 'c_<state>' enter every residual as R_s = F_s - c_s
    states     {name: shape}
    res(v)     {state: array}: the residuals as functions of inputs and states
    """

    def __init__(self, id, body, inputs, states, res, domain=None, sample=None,
                 schedule='a0l0s0l1s1a1', solve=True, upstream='auto', e2e=True, which=0,
                 solver='direct', outer=None, det=True, timeout=40.):
        self.states = dict(states)
        self.ins_ = dict(inputs)
        allv = dict(inputs)
        allv.update(states)
        dom = domain or (lambda v: [])
        Case.__init__(self, id, None, allv, [], res, sample=sample, timeout=timeout)
        self.body = body
        self.res = res
        self.domain0 = dom
        self.det = det
        self.domain = self._domain
        self.schedule = SCHEDULES[schedule]
        self.solve = solve
        self.upstream = upstream
        self.e2e = e2e
        self.which = which
        self.solver = solver
        self.outer = outer

    # -------------------------------------------------------------- the model
    def build_model(self, point=None, solver=None, vals=None):
        body = self.body
        case = self

        class Comp(ot.ImplicitComponent):
            def setup(self):
                body(self)
                if solver == 'direct':
                    self.linear_solver = DirectSolver()
                    self.nonlinear_solver = NewtonSolver(solve_subsystems=False, iprint=-1,
                                                         maxiter=40)

        if self.outer is not None:
            return self.outer(Comp)

        class Model(ot.Group):
            def setup(self):
                if case.upstream == 'indep':
                    for n, s in case.ins_.items():
                        self.create_indep_var(n, shape=s, val=np.full(s, .3))
                self.add_subsystem('imp', Comp(), promotes=['*'])
                for n, s in case.states.items():
                    u = self.declare_input(n, shape=s)
                    self.register_output('y_' + n, 2. * u + u * u)
        return Model()

    def _mat(self, v):
        names = list(self.states)
        R = self.res(v)
        us = [e for n in names for e in v[n].view(np.ndarray).flat]
        rs = [e for n in names for e in A.lift_arr(R[n]).flat]
        return E.grad(rs, us)

    def _domain(self, v):
        d = list(self.domain0(v))
        if self.solve and self.det:
            m = np.array(self._mat(v), dtype=object)
            d.append(E.bnot(E.eq(A.det(m), E.ZERO)))
        return d

    # -------------------------------------------------------------- one history, on either side
    def _history(self, comp, vecs, jac, ds):
        """vecs[k] -> (inputs, outputs); ds[k] -> {name: array}; yields the results in order"""
        res = []
        names = list(self.states)
        j = jac()                 # one for all linearizations, as in OpenMDAO
        for what, k in self.schedule:
            ins, outs = vecs(k)
            if what == 'apply':
                r = {n: self._blank(comp, n) for n in names}
                comp.apply_nonlinear(Vec(ins, True), Vec(outs, True), Vec(r))
                res.append((what, k, r))
            elif what == 'lin':
                comp.linearize(Vec(ins, True), Vec(outs, True), j)
                res.append((what, k, j.snapshot()))
            elif what == 'solve' and self.solve:
                for mode in ('fwd', 'rev'):
                    rhs = {n: ds(k)[n].copy() for n in names}
                    sol = {n: self._blank(comp, n) for n in names}
                    if mode == 'fwd':
                        comp.solve_linear(Vec(sol), Vec(rhs, True), mode)
                    else:
                        comp.solve_linear(Vec(rhs, True), Vec(sol), mode)
                    res.append((mode, k, sol))
        return res

    def _blank(self, comp, n):
        return fresh('blank:' + n, self.states[n])

    def exec_history(self, ins):
        prob = setup_problem(self.build_model())
        comp = find_component(prob, self.which)
        real_inner = comp.prob
        comp.prob = SymProb(real_inner)
        ni, no = local(comp, 'input'), local(comp, 'output')
        missing = [n for n in self.states if n not in no]
        if missing:
            raise KeyError('no output %s' % missing)

        def vecs(k):
            return ({n: ins[k][n].copy() for n in ni}, {n: ins[k][n].copy() for n in no})

        self._ds = [{n: A.fresh('rhs@%d:%s' % (k, n), s) for n, s in self.states.items()}
                    for k in range(self.history)]
        with symbolic_numpy(), quiet():
            res = self._history(comp, vecs, lambda: Jac(comp), lambda k: self._ds[k])
        return _Comps([comp] + comp.prob.sym.comps), (res, ni)

    def _entry(self, j, of, wrt):
        try:
            ent = j.entries((of, wrt))
        except KeyError:
            ent = {}
        n, m = int(np.prod(self.states[of])), int(np.prod(self.inputs[wrt]))
        out = np.empty((n, m), dtype=object)
        out[...] = E.ZERO
        for (r, c), v in ent.items():
            out[r, c] = E.lift(v)
        return out

    def obligations(self, out, ins, hist, specs, pc, rng, pts):
        res, ni = hist
        for what, k, got in res:
            x = ins[k]
            R = {n: A.lift_arr(specs[k][n]) for n in self.states}
            pairs, labels = [], []
            if what == 'apply':
                for n, s in self.states.items():
                    if R[n].shape != tuple(s):
                        raise AssertionError('specification of %s' % n)
                    for i in np.ndindex(*s):
                        pairs.append((got[n].view(np.ndarray)[i], R[n][i]))
                        labels.append('residual %s%s' % (n, list(i)))
            elif what == 'lin':
                for n in self.states:
                    for w in self.inputs:
                        g = E.grad(list(R[n].flat), list(x[w].view(np.ndarray).flat))
                        if w not in ni and w not in self.states:
                            t = np.empty((len(g), x[w].size), dtype=object)
                            t[...] = E.ZERO
                        else:
                            t = self._entry(got, n, w)
                        for r in range(t.shape[0]):
                            for c in range(t.shape[1]):
                                pairs.append((t[r, c], g[r][c]))
                                labels.append('dR_%s[%d]/d%s[%d]' % (n, r, w, c))
            else:
                M = np.array(self._mat(x), dtype=object)
                if what == 'rev':
                    M = M.T
                sol = [e for n in self.states for e in got[n].view(np.ndarray).flat]
                rhs = [e for n in self.states for e in self._ds[k][n].view(np.ndarray).flat]
                for r in range(M.shape[0]):
                    s = E.ZERO
                    for c in range(M.shape[1]):
                        s = E.add(s, E.mul(E.lift(M[r, c]), sol[c]))
                    pairs.append((s, rhs[r]))
                    labels.append('%s solve, equation %d' % (what, r))
            if not pairs:
                continue
            if pc:
                rr = E.resolve([E.lift(e) for p in pairs for e in p], pc)
                pairs = list(zip(rr[::2], rr[1::2]))
            self.decide_equal(out, pairs, labels, pc, ins, rng, pts)
            if out.status == 'violated':
                return
            if not out.twin:
                from . import solve as S
                r = S.equal_all([(E.add(pairs[0][1], E.ONE), pairs[0][0])], pc, timeout=10.)
                out.twin = 1 if r.status == 'violated' else 0
                if r.status == 'holds':
                    out.inconclusive('vacuous: assumptions unsatisfiable')
            if out.sample is None:
                out.sample = '%s: %s: %s == %s' % (self.id, labels[0], E.show(pairs[0][0], 3),
                                                   E.show(E.lift(pairs[0][1]), 3))

    def check_encoding(self, out, ins, hist, pts, conc, pc):
        pass                      # compare() already ran the real methods at these points

    # -------------------------------------------------------------- concrete side
    _stale = None

    def try_replay(self, env, ins, rng, pts0):
        """with what the counterexample says an earlier evaluation left in the inner problem"""
        st = {}
        for n, v in (env or {}).items():
            if n.startswith('stale:'):
                name, i = n[6:].rsplit('[', 1)
                st.setdefault(name, []).append(
                    (tuple(int(t) for t in i[:-1].split(',') if t), float(v)))
        if st:
            self._stale = st
            try:
                pts = self.fix(self.points_from_env(env, ins))
                if self.in_domain(pts, ins):
                    bad = self.compare(pts, self.concrete(pts))
                    if bad:
                        doc = self.replay_doc(pts)
                        doc['stale'] = {n: [[list(i), v] for i, v in e] for n, e in st.items()}
                        return bad, doc
            finally:
                self._stale = None
        return Case.try_replay(self, env, ins, rng, pts0)

    def replay(self, doc):
        self._stale = {n: [(tuple(i), v) for i, v in e]
                       for n, e in doc.get('stale', {}).items()} or None
        try:
            return Case.replay(self, doc)
        finally:
            self._stale = None

    def _leave(self, comp):
        """as after an evaluation at another point"""
        if not self._stale:
            return
        comp.prob.final_setup()
        for n, entries in self._stale.items():
            v = np.array(comp.prob.get_val(n), float)
            for i, x in entries:
                v[i] = x
            comp.prob.set_val(n, v)
        comp.prob.run_model()

    def concrete(self, pts):
        """the real component over the history, and the real model at a solution"""
        import traceback
        try:
            with quiet():
                prob = setup_problem(self.build_model())
                comp = find_component(prob, self.which)
                self._leave(comp)
                ni, no = local(comp, 'input'), local(comp, 'output')
                rng = np.random.default_rng(7)
                ds = [{n: rng.uniform(-1, 1, size=s) for n, s in self.states.items()}
                      for _ in range(self.history)]
                res = []
                names = list(self.states)
                j = Jac(comp)
                for what, k in self.schedule:
                    ins = {n: np.array(pts[k][n], float) for n in ni}
                    outs = {n: np.array(pts[k][n], float) for n in no}
                    if what == 'apply':
                        r = {n: np.full(self.states[n], np.nan) for n in names}
                        comp.apply_nonlinear(ins, outs, r)
                        res.append((what, k, r))
                    elif what == 'lin':
                        comp.linearize(ins, outs, j)
                        res.append((what, k, {
                            (of, w): np.array([[float(E.evaluate([e], {})[0]) for e in row]
                                               for row in self._entry(j, of, w)]
                                              ).reshape(int(np.prod(self.states[of])), -1)
                            for of in names for w in ni + no}))
                    elif self.solve:
                        for mode in ('fwd', 'rev'):
                            rhs = {n: ds[k][n].copy() for n in names}
                            sol = {n: np.full(self.states[n], np.nan) for n in names}
                            if mode == 'fwd':
                                comp.solve_linear(sol, rhs, mode)
                            else:
                                comp.solve_linear(rhs, sol, mode)
                            res.append((mode, k, sol))
                r = {'steps': res, 'ds': ds, 'ni': ni}
                if self.e2e:
                    r['e2e'] = [self._e2e(pts[k], solver, mode)
                                for k, solver, mode in ((0, 'direct', 'fwd'), (1, 'direct', 'rev'),
                                                        (0, 'self', 'rev'), (1, 'self', 'fwd'))
                                if solver == 'direct' or self.solve]
            return r
        except (Exception, SystemExit) as e:
            return {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()}

    def _root_point(self, p):
        """the point with loads such that its states solve the residuals"""
        p = {n: np.array(v, float) for n, v in p.items()}
        for n in self.states:
            p['c_' + n] = np.zeros(self.states[n])
        x = self.sym_inputs(0)
        R = self.res(x)
        env = _env_of(x, p)
        for n, s in self.states.items():
            p['c_' + n] = np.array(E.evaluate(list(A.lift_arr(R[n]).flat), env), float).reshape(s)
        return p

    def _e2e(self, p, solver, mode):
        p = self._root_point(p)
        prob = ot_problem(self.build_model(solver=solver), mode)
        comp = find_component(prob, self.which)
        for n in self.ins_:
            if n in local(comp, 'input'):
                prob.set_val(n, p[n])
        for n in self.states:
            prob.set_val(n, p[n] + (1e-5 if solver == 'direct' else 0.))
        prob.run_model()
        ws = [n for n in self.ins_ if n in local(comp, 'input')]
        t = prob.compute_totals(of=['y_' + n for n in self.states], wrt=ws)
        return {'point': {n: v.tolist() for n, v in p.items()}, 'solver': solver, 'mode': mode,
                'wrt': ws, 'states': {n: np.array(prob.get_val(n)) for n in self.states},
                'totals': {(n, w): np.array(_pick(t, 'y_' + n, w)) for n in self.states
                           for w in ws}}

    def compare(self, pts, conc):
        if 'error' in conc:
            return 'the real code fails: %s' % conc['error'][:300]
        for what, k, got in conc['steps']:
            x = self.sym_inputs(k)
            env = _env_of(x, pts[k])
            R = {n: A.lift_arr(a) for n, a in self.res(x).items()}
            if what == 'apply':
                for n in self.states:
                    want = np.array(E.evaluate(list(R[n].flat), env), float)
                    g = np.ravel(got[n])
                    if g.shape != want.shape or not _close(g, want, 1e-8):
                        return 'residual of %s is %s, expected %s' % (n, g.tolist(),
                                                                     want.tolist())
            elif what == 'lin':
                for n in self.states:
                    for w in self.inputs:
                        g = E.grad(list(R[n].flat), list(x[w].view(np.ndarray).flat))
                        want = np.array(E.evaluate([e for r in g for e in r], env), float)
                        if (n, w) not in got:
                            if np.any(np.abs(want) > 1e-12):
                                return 'no partial of the residual of %s by %s' % (n, w)
                            continue
                        h = np.ravel(got[n, w])
                        if not _close(h, want, 1e-7):
                            i = _worst(h, want)
                            return 'partial of the residual of %s by %s, entry %d, is %r, ' \
                                   'expected %r' % (n, w, i, h[i], want[i])
            else:
                M = self._cmat(x, env)
                if what == 'rev':
                    M = M.T
                sol = np.concatenate([np.ravel(got[n]) for n in self.states])
                rhs = np.concatenate([np.ravel(conc['ds'][k][n]) for n in self.states])
                if np.abs(np.linalg.det(M)) > 1e-6 and \
                        not _close(sol, np.linalg.solve(M, rhs), 1e-6):
                    return '%s linear solve is wrong: %s' % (what, sol.tolist())
        for e in conc.get('e2e', []):
            p = {n: np.array(v) for n, v in e['point'].items()}
            x = self.sym_inputs(0)
            env = _env_of(x, p)
            M = self._cmat(x, env)
            if abs(np.linalg.det(M)) < 1e-3:
                continue
            for n in self.states:
                if not _close(np.ravel(e['states'][n]), np.ravel(p[n]), 1e-6):
                    return 'state %s is %s at its solution %s' % (n, e['states'][n].tolist(),
                                                                 p[n].tolist())
            us = {n: np.ravel(p[n]) for n in self.states}
            for w in e['wrt']:
                rs = [r for n in self.states for r in A.lift_arr(self.res(x)[n]).flat]
                B = np.array(E.evaluate([d for r in E.grad(rs, list(x[w].view(np.ndarray).flat))
                                         for d in r], env), float).reshape(len(rs), -1)
                du = -np.linalg.solve(M, B)
                off = 0
                for n in self.states:
                    m = us[n].size
                    want = (2. + 2. * us[n])[:, None] * du[off:off + m]
                    off += m
                    if not _close(np.ravel(e['totals'][n, w]), np.ravel(want), 1e-4):
                        return 'total of %s by %s (%s, %s) is %s, expected %s' % (
                            n, w, e['solver'], e['mode'], np.ravel(e['totals'][n, w]).tolist(),
                            np.ravel(want).tolist())
        return None

    def _cmat(self, x, env):
        M = self._mat(x)
        return np.array(E.evaluate([e for r in M for e in r], env), float).reshape(len(M), -1)


def ot_problem(model, mode):
    from openmdao.api import Problem
    prob = Problem(reports=False)
    prob.model = model
    prob.setup(mode=mode)
    return prob


class UFProb(object):
    """stands in for the inner Problem: residual entries are uninterpreted functions of their own
    state entry and of everything else the residual reads"""

    def __init__(self, comp, case):
        self.model = comp.prob.model
        self.case = case
        self.map = dict(comp.group.res_out_map)
        self.cur = {}
        self.res = {}
        self.runs = 0

    def set_val(self, name, val):
        s = dict(self.case.inputs)[name]
        full = np.empty(s, dtype=object)
        v = symarray(val)
        full[...] = v.view(np.ndarray) if v.ndim else v.view(np.ndarray)[()]
        self.cur[name] = full

    def run_model(self, *a, **k):
        self.runs += 1
        for r, o in self.map.items():
            self.res[r] = self.case.uf_residual(o, self.cur)

    def get_val(self, name):
        if name in self.map:
            return self.res[name].view(SymArray).copy()
        return self.cur[name].view(SymArray).copy()

    __setitem__ = set_val
    __getitem__ = get_val


class BracketCase(Case):
    """solve_nonlinear of a component with bracketed states, for any residual with a sign change

    states    {name: shape}; brackets: names of the bracketed ones
    ends      how the ends are given: 'array', 'scalar' (one number for all entries) or 'same'
    reads     {state: names of the inputs and other states its residual reads}
    res(v)    the residuals of the concrete model (used in replays, and where real=True)
    """
    derivs = False

    def __init__(self, id, body, inputs, states, reads, res, sample, maxiter, brackets=None,
                 ends='array', real=False, history=1, domain=None, reference=False, timeout=60.,
                 move=None):
        self.states = dict(states)
        self.brackets = list(brackets or states)
        self.ins_ = dict(inputs)
        self.reads = reads
        self.res = res
        self.body = body
        self.maxiter = maxiter
        self.ends = ends
        self.move = move       # p -> a point with the same ends whose root lies between them
        self.real = real
        self.reference = reference
        allv = dict(inputs)
        allv.update(states)
        params = {}
        for n in self.brackets:
            shp = () if ends == 'scalar' else states[n]
            for e in ('lo_', 'hi_'):
                allv[e + n] = shp
                params[e + n] = shp
        Case.__init__(self, id, None, allv, [], res, sample=sample, timeout=timeout,
                      history=history, params=params, derivs=False)
        self.domain = self._domain
        self.domain1 = domain or (lambda v: [])

    def fix(self, pts):
        pts = Case.fix(self, pts)
        if self.move is None:
            return pts
        return pts[:1] + [self.move(p) for p in pts[1:]]

    def _param(self, n, point):
        v = point[n]
        if self.params[n] == () and isinstance(v, A.SymArray):
            return E.SymNum(v.view(np.ndarray)[()])
        return float(v) if self.params[n] == () else v.copy()

    def build_model(self, point):
        case = self
        par = {n: self._param(n, point) for n in self.params}

        class Comp(ot.ImplicitComponent):
            def setup(self):
                case.body(self, par)

        class Model(ot.Group):
            def setup(self):
                self.add_subsystem('imp', Comp(**({} if case.maxiter is None else
                                                  {'maxiter': case.maxiter})), promotes=['*'])
        return Model()

    @property
    def limit(self):
        return 100 if self.maxiter is None else self.maxiter

    # residual entries at given values
    def uf_residual(self, o, cur):
        others = [e for n in self.reads[o] for e in cur[n].flat]
        out = np.empty(self.states[o], dtype=object)
        for k, i in enumerate(np.ndindex(*self.states[o])):
            out[i] = E.ufun('R_%s_%d' % (o, k), cur[o][i], *others)
        return out

    def resid(self, o, v):
        if self.real:
            return A.lift_arr(self.res({n: symarray(a) for n, a in v.items()})[o])
        return self.uf_residual(o, {n: symarray(a).view(np.ndarray) for n, a in v.items()})

    def end(self, v, which, n):
        a = symarray(v[which + n])
        full = np.empty(self.states[n], dtype=object)
        full[...] = a.view(np.ndarray) if a.ndim else a.view(np.ndarray)[()]
        return full

    def _domain(self, v):
        d = list(self.domain1(v))
        for n in self.brackets:
            lo, hi = self.end(v, 'lo_', n), self.end(v, 'hi_', n)
            rl = self.resid(n, dict(v, **{n: lo}))
            rh = self.resid(n, dict(v, **{n: hi}))
            for i in np.ndindex(*lo.shape):
                d.append(E.bor(E.band(rl[i] >= 0, rh[i] <= 0), E.band(rl[i] <= 0, rh[i] >= 0)))
        return d

    # ------------------------------------------------------------------ symbolic
    def exec_history(self, ins):
        prob = setup_problem(self.build_model(ins[0]))
        comp = find_component(prob)
        comp.prob = SymProb(comp.prob) if self.real else UFProb(comp, self)
        ni, no = local(comp, 'input'), local(comp, 'output')
        res = []
        with symbolic_numpy(), quiet():
            for x in ins:
                outs = {n: x[n].copy() for n in no}
                comp.prob.runs = 0
                comp.solve_nonlinear(Vec({n: x[n].copy() for n in ni}, True), Vec(outs))
                res.append((outs, comp.prob.runs))
        return _Comps([comp] + (comp.prob.sym.comps if self.real else [])), res

    def goals_of(self, x, outs):
        """per bracketed entry: [(label, goal)]"""
        gs = []
        for n in self.brackets:
            lo, hi = self.end(x, 'lo_', n), self.end(x, 'hi_', n)
            o = outs[n].view(np.ndarray)
            # only this state's own entry moves: the residuals are decoupled
            half = E.const(E.to_fraction(1) / 2 ** (self.limit + 1))
            d = np.empty(lo.shape, dtype=object)
            for i in np.ndindex(*lo.shape):
                d[i] = E.mul(half, E.sub(lo[i], hi[i]))
            rs = {}
            for s in (-1, 0, 1):
                p = np.empty(lo.shape, dtype=object)
                for i in np.ndindex(*lo.shape):
                    p[i] = E.add(E.lift(o[i]), E.mul(E.const(s), d[i]))
                rs[s] = self.resid(n, dict(x, **{n: p.view(SymArray)}))
            for i in np.ndindex(*lo.shape):
                v = E.lift(o[i])
                gs.append(('%s%s in its bracket' % (n, list(i)),
                           E.bor(E.band(lo[i] <= v, v <= hi[i]), E.band(hi[i] <= v, v <= lo[i]))))
                a, b = E.lift(rs[-1][i]), E.lift(rs[1][i])
                gs.append(('%s%s near a root' % (n, list(i)),
                           E.bor(E.band(a >= 0, b <= 0), E.band(a <= 0, b >= 0),
                                 E.eq(E.lift(rs[0][i]), E.ZERO))))
        return gs

    def bisection(self, x):
        """textbook bisection on the same residuals"""
        out = {}
        for n in self.brackets:
            lo, hi = self.end(x, 'lo_', n), self.end(x, 'hi_', n)
            rl = self.resid(n, dict(x, **{n: lo.view(SymArray)}))
            rh = self.resid(n, dict(x, **{n: hi.view(SymArray)}))
            p, m = lo.copy(), lo.copy()
            for i in np.ndindex(*lo.shape):
                c = rl[i] >= rh[i]
                p[i], m[i] = E.ite(c, lo[i], hi[i]), E.ite(c, hi[i], lo[i])
            half = E.const(.5)
            mid = lambda: [E.add(E.mul(half, a), E.mul(half, b)) for a, b in zip(p.flat, m.flat)]
            for _ in range(self.limit):
                q = np.empty(lo.shape, dtype=object)
                q.flat = mid()
                r = self.resid(n, dict(x, **{n: q.view(SymArray)}))
                for i in np.ndindex(*lo.shape):
                    c = r[i] >= 0
                    p[i], m[i] = E.ite(c, q[i], p[i]), E.ite(c, m[i], q[i])
            q = np.empty(lo.shape, dtype=object)
            q.flat = mid()
            out[n] = q
        return out

    def obligations(self, out, ins, hist, specs, pc, rng, pts):
        from . import solve as S
        for k, (outs, runs) in enumerate(hist):
            x = ins[k]
            out.obligations += 1
            if runs > len(self.brackets) * (self.limit + 2):
                v = self.try_replay({}, ins, rng, pts)
                if v:
                    return out.violate(v[0], v[1])
                out.inconclusive('%d evaluations of the residuals' % runs)
            for n in self.states:
                if n not in self.brackets:
                    pairs = list(zip(outs[n].view(np.ndarray).flat, x[n].view(np.ndarray).flat))
                    self.decide_equal(out, pairs, ['%s unchanged' % n] * len(pairs), pc, ins, rng,
                                      pts)
                    if out.status == 'violated':
                        return
            if self.reference:
                ref = self.bisection(x)
                pairs = [(E.lift(a), b) for n in self.brackets
                         for a, b in zip(outs[n].view(np.ndarray).flat, ref[n].flat)]
                out.obligations += len(pairs)
                if all(a is b for a, b in pairs):
                    out.twin = 1
                    continue
                out.obligations -= len(pairs)
                self.decide_equal(out, pairs, ['bisection'] * len(pairs), pc, ins, rng, pts)
                if out.status == 'violated':
                    return
                continue
            gs = self.goals_of(x, outs)
            out.obligations += len(gs)
            for lab, g in gs:
                r = S.valid([E.blift(g)], pc, timeout=self.timeout)
                if r.status != 'holds':
                    v = self.try_replay(r.env if r.status == 'violated' else {}, ins, rng, pts)
                    if v:
                        return out.violate(v[0], v[1])
                    out.inconclusive('%s: %s' % (lab, r.status))
            if not out.twin and gs:
                r = S.valid([E.bnot(E.blift(gs[0][1]))], pc, timeout=20.)
                out.twin = 1 if r.status == 'violated' else 0
                if r.status == 'holds':
                    out.inconclusive('vacuous: assumptions unsatisfiable')
            if out.sample is None and gs:
                out.sample = '%s: %s: %s' % (self.id, gs[0][0], E.showb(gs[0][1], 3))

    def check_encoding(self, *a):
        pass

    # ------------------------------------------------------------------ concrete
    def in_domain(self, pts, ins):
        for p in pts:
            env = {}
            x = self.sym_inputs(0)
            env.update(_env_of(x, p))
            old, self.real = self.real, True
            try:
                c = [E.blift(d) for d in self._domain(x)]
            finally:
                self.real = old
            if not all(E.evaluate(c, env)):
                return False
        return True

    def try_replay(self, env, ins, rng, pts0):
        # residual values in a model are not those of a particular function: sample widely
        for pts in ([self.points_from_env(env, ins)] if env else []) + [
                [self.sample(rng) for _ in range(self.history)] for _ in range(30)]:
            pts = self.fix(pts)
            if not self.in_domain(pts, ins):
                continue
            bad = self.compare(pts, self.concrete(pts))
            if bad:
                return bad, self.replay_doc(pts)
        return None

    def concrete(self, pts):
        import traceback
        try:
            with quiet():
                prob = setup_problem(self.build_model(pts[0]))
                comp = find_component(prob)
                ni = local(comp, 'input')
                real_run = comp.prob.run_model
                count = [0]

                def counted(*a, **k):
                    count[0] += 1
                    return real_run(*a, **k)
                comp.prob.run_model = counted
                steps = []
                for p in pts:
                    for n in ni:
                        prob.set_val(n, p[n])
                    for n in self.states:
                        prob.set_val(n, p[n])
                    count[0] = 0
                    prob.run_model()
                    steps.append({'vals': {n: np.array(prob.get_val(n)) for n in self.states},
                                  'runs': count[0]})
            return {'steps': steps}
        except (Exception, SystemExit) as e:
            return {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()}

    def compare(self, pts, conc):
        if 'error' in conc:
            return 'the real code fails: %s' % conc['error'][:300]
        for k, (p, c) in enumerate(zip(pts, conc['steps'])):
            # run_model of the outer model calls solve_nonlinear once
            if c['runs'] > len(self.brackets) * (self.limit + 2):
                return '%d evaluations of the residuals at step %d' % (c['runs'], k)
            x = self.sym_inputs(0)
            for n in self.states:
                got = np.ravel(c['vals'][n])
                if n not in self.brackets:
                    if not _close(got, np.ravel(p[n]), 1e-12):
                        return 'state %s, which has no bracket, changed' % n
                    continue
                lo = np.ravel(np.broadcast_to(p['lo_' + n], self.states[n])).astype(float)
                hi = np.ravel(np.broadcast_to(p['hi_' + n], self.states[n])).astype(float)
                if np.any(got < np.minimum(lo, hi) - 1e-9) or \
                        np.any(got > np.maximum(lo, hi) + 1e-9):
                    return '%s = %s leaves its bracket %s, %s' % (n, got.tolist(), lo.tolist(),
                                                                 hi.tolist())
                h = np.abs(lo - hi) / 2. ** (self.limit + 1) + 1e-9 * (1 + np.abs(lo) + np.abs(hi))
                rs = []
                for s in (-1, 1):
                    q = dict(p, **{n: np.clip(got + s * h, np.minimum(lo, hi), np.maximum(lo, hi)
                                              ).reshape(self.states[n])})
                    env = _env_of(x, q)
                    rs.append(np.array(E.evaluate(list(A.lift_arr(self.res(x)[n]).flat), env),
                                       float))
                tol = 1e-9
                ok = ((rs[0] >= -tol) & (rs[1] <= tol)) | ((rs[0] <= tol) & (rs[1] >= -tol))
                if not np.all(ok):
                    return '%s = %s is not within %s of a root of its residual (bracket %s, %s)' % (
                        n, got.tolist(), h.tolist(), lo.tolist(), hi.tolist())
        return None
