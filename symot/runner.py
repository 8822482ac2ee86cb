"""Cases, the per-case decision procedure, replay, evidence."""
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import hashlib

import numpy as np

from . import expr as E
from . import arr as A
from . import solve as S
from .expr import Unencodable
from .model import SymModel, setup_problem, quiet, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


class Violation(object):
    def __init__(self, what, replay):
        self.what = what
        self.replay = replay


class Outcome(object):
    """result of one case"""

    def __init__(self):
        self.status = 'holds'         # holds | violated | inconclusive
        self.what = ''
        self.replay = None
        self.paths = 0
        self.conformance = 0
        self.functions = set()
        self.obligations = 0
        self.twin = 0
        self.wall = 0.
        self.sample = None
        self.stats = None
        self.tolerant = 0
        self.pinned = 0
        self.finding = None

    def violate(self, what, replay):
        self.status = 'violated'
        self.what = what
        self.replay = replay
        return self

    def inconclusive(self, what):
        if self.status == 'holds':
            self.status = 'inconclusive'
            self.what = what
        return self


class Case(object):
    """A model built through the public API, and what it must compute.

    make()        -> a fresh omtools Group
    inputs        {name: shape}: the values quantified over
    outputs       names compared with spec
    spec(ins)     -> {output: array}   (plain loops over symbolic arrays)
    domain(ins)   -> conditions under which the outputs are defined and differentiable
    sample(rng)   -> {name: array} a point inside the domain
    """
    kind = 'values'
    derivs = True
    tol = 1e-7
    history = 2
    timeout = 20.
    expect_error = None

    def __init__(self, id, make, inputs, outputs, spec, domain=None, sample=None, derivs=True,
                 wrt=None, note='', history=2, bounds=None, exp_axioms=False, goals=None,
                 value=True, timeout=20., definedness=True, params=None):
        self.id = id
        self.make = make
        self.inputs = inputs
        self.outputs = outputs
        self.spec = spec
        self.domain = domain or (lambda ins: [])
        self._sample = sample
        self.derivs = derivs
        self.wrt = wrt if wrt is not None else [n for n in inputs if n not in (params or {})]
        self.note = note
        self.history = history
        self.exp_axioms = exp_axioms
        self.goals = goals
        self.scales = ()
        self.value = value
        self.timeout = timeout
        self.definedness = definedness
        # constants of the model, quantified over as well: set when the model is built
        self.params = params or {}

    def fix(self, pts):
        """constants of the model have one value throughout a history"""
        if self.pinned:
            return [dict(p, **self.pinned) for p in pts]
        return [dict(p, **{n: pts[0][n] for n in self.params}) for p in pts]

    def build_model(self, point):
        if self.params:
            return self.make({n: self._param(n, point) for n in self.params})
        return self.make()

    def _param(self, n, point):
        v = point[n]
        if self.pinned:
            v = np.array(self.pinned[n])
        if self.params[n] == ():
            if isinstance(v, A.SymArray):
                return E.SymNum(v.view(np.ndarray)[()])
            return float(v)
        return v.copy()

    def sample(self, rng):
        if self._sample:
            return self._sample(rng)
        return {n: rng.uniform(-2., 2., size=s) for n, s in self.inputs.items()}

    # ---------------------------------------------------------------- symbolic side
    pinned = None       # {constant: value}: constants the code turns into plain numbers

    def sym_inputs(self, k):
        r = {n: A.fresh('%s@%d' % (n, 0 if n in self.params else k), s)
             for n, s in self.inputs.items()}
        for n, v in (self.pinned or {}).items():
            r[n] = A.symarray(v)
        return r

    def run(self, seed, tier):
        out = Outcome()
        t0 = time.time()
        rng = np.random.default_rng(seed)
        # 1. the real code at concrete points: construction and conformance
        pts = self.fix([self.sample(rng) for _ in range(self.history)])
        conc = self.concrete(pts)
        out.conformance += 1
        bad = self.compare(pts, conc)
        if 'error' in conc:
            # the model cannot even be built or run at a point of the domain
            return out.violate(bad, self.replay_doc(pts))
        # 2. symbolic execution of the same history
        try:
            try:
                self.symbolic(out, pts, conc, rng)
            except Unencodable:
                if not self.params:
                    raise
                # the constants are turned into plain numbers: one value of each
                self.pinned = {n: np.round(pts[0][n] * 16.) / 16. for n in self.params}
                pts = [dict(p, **self.pinned) for p in pts]
                self.symbolic(out, pts, self.concrete(pts), rng)
                out.pinned = 1
        except Unencodable as e:
            out.inconclusive('not encodable: %s' % e)
        except Exception as e:
            if not bad:
                raise
            out.inconclusive('%s: %s' % (type(e).__name__, e))
        if bad and out.status != 'violated':
            # the real code departs from the specification where the encoding does not decide
            out.violate(bad, self.replay_doc(pts))
        out.wall = time.time() - t0
        return out

    def build_sym(self):
        return SymModel(setup_problem(self.build_model(self._first)))

    def exec_history(self, ins):
        self._first = ins[0]
        m = self.build_sym()
        res = []
        for x in ins:
            for n, v in x.items():
                if n not in self.params:
                    m.set(n, v)
            m.run()
            r = {'vals': {o: m.get(o).copy() for o in self.outputs}, 'feedback': list(m.feedback),
                 'dropped': m.dropped}
            if self.derivs:
                m.linearize()
                r['totals'] = m.totals(self.outputs, self.wrt)
            res.append(r)
        return m, res

    def symbolic(self, out, pts, conc, rng):
        ins = [self.sym_inputs(k) for k in range(self.history)]
        specs = [self.spec(x) for x in ins]
        dom = []
        for x in ins:
            dom += [E.blift(c) for c in self.domain(x)]
        dom = [d for d in dom if d is not E.TRUE]
        ex = E.Explorer(S.path_checker())
        first = True
        for (kind, res), pc in ex.run(lambda: self.exec_history(ins), dom):
            out.paths += 1
            if kind != 'ok':
                # the code raised on this path: is it real?
                st, env = S.satisfiable(pc)
                v = self.try_replay(env, ins, rng, pts)
                if v:
                    return out.violate('%s: %s' % (v[0], res), v[1])
                out.inconclusive('symbolic execution raised %s: %s' % (type(res).__name__, res))
                if os.environ.get('SYMOT_DEBUG'):
                    traceback.print_exception(type(res), res, res.__traceback__)
                continue
            m, hist = res
            for c in m.comps:
                t = type(c)
                if t.__module__.startswith('omtools'):
                    out.functions.add(t.__module__ + '.' + t.__name__ + '.compute')
                    if 'compute_partials' in t.__dict__:
                        out.functions.add(t.__module__ + '.' + t.__name__ + '.compute_partials')
            if first:
                first = False
                self.check_encoding(out, ins, hist, pts, conc, pc)
            self.obligations(out, ins, hist, specs, pc, rng, pts)
            if out.status == 'violated':
                return
        if ex.truncated:
            out.inconclusive('path bound reached')
        if out.paths == 0:
            out.inconclusive('no feasible path: vacuous case')

    def check_encoding(self, out, ins, hist, pts, conc, pc):
        """the symbolic results, evaluated at the concrete points, are what the real code gave"""
        env = {}
        for x, p in zip(ins, pts):
            env.update(_env_of(x, p))
        if not all(E.evaluate([E.blift(c) for c in pc], env)):
            return
        for h, c in zip(hist, conc['steps']):
            for o in self.outputs:
                got = np.array(E.evaluate(list(h['vals'][o].view(np.ndarray).flat), env), float)
                got = np.where(np.isnan(got), np.ravel(c['vals'][o]), got)   # inf / inf
                if not _close(got, np.ravel(c['vals'][o]), 1e-6):
                    raise Unencodable('encoding of %s does not agree with the real run' % o)
                if self.derivs:
                    for w in self.wrt:
                        got = np.array(E.evaluate(list(h['totals'][o, w].flat), env), float)
                        got = np.where(np.isnan(got), np.ravel(c['totals'][o, w]), got)
                        if not _close(got, np.ravel(c['totals'][o, w]), 1e-5):
                            raise Unencodable('encoding of d%s/d%s does not agree with the real '
                                              'run' % (o, w))

    def obligations(self, out, ins, hist, specs, pc, rng, pts):
        for k, (x, h, sp) in enumerate(zip(ins, hist, specs)):
            pairs, labels = [], []
            for o in self.outputs:
                s = sp.get(o)
                if s is None:
                    continue
                s = A.symarray(s)
                v = h['vals'][o]
                if v.shape != s.shape:
                    return out.violate('%s has shape %s, expected %s' % (o, v.shape, s.shape),
                                       self.replay_doc(pts))
                if self.value:
                    for i in np.ndindex(*s.shape):
                        pairs.append((v[i] if s.ndim else v.view(np.ndarray)[()],
                                      s.view(np.ndarray)[i]))
                        labels.append('%s%s at step %d' % (o, list(i), k))
            if self.derivs:
                ws = []
                for w in self.wrt:
                    ws += list(x[w].view(np.ndarray).flat)
                for o in self.outputs:
                    if sp.get(o) is None:
                        continue
                    s = A.lift_arr(sp[o])
                    g = E.grad(list(s.flat), ws)
                    off = 0
                    for w in self.wrt:
                        n = int(np.prod(self.inputs[w]))
                        t = h['totals'][o, w]
                        for r in range(t.shape[0]):
                            for c in range(n):
                                pairs.append((t[r, c], g[r][off + c]))
                                labels.append('d%s[%d]/d%s[%d] at step %d' % (o, r, w, c, k))
                        off += n
            if pairs and pc:
                res = E.resolve([E.lift(e) for p in pairs for e in p], pc)
                pairs = list(zip(res[::2], res[1::2]))
            if pairs:
                self.decide_equal(out, pairs, labels, pc, ins, rng, pts)
                if out.status == 'violated':
                    return
            if self.definedness:
                roots = [E.lift(p[0]) for p in pairs] + list(h.get('dropped', {}).values())
                conds = S.partial_domain(roots)
                if conds:
                    out.obligations += len(conds)
                    r = S.valid(conds, pc, timeout=self.timeout)
                    if r.status == 'violated':
                        v = self.try_replay(r.env, ins, rng, pts)
                        if v:
                            return out.violate(v[0], v[1])
                        out.inconclusive('definedness: %s not shown' % r.which)
                    elif r.status == 'unknown':
                        out.inconclusive(r.detail)
            if self.goals:
                gs = self.goals(x, h, specs[k])
                if gs:
                    out.obligations += len(gs)
                    gs = [g if isinstance(g, tuple) else (g, []) for g in gs]
                    r = S.valid([E.blift(g) for g, _ in gs], pc, timeout=self.timeout,
                                exp=self.exp_axioms, lemmas=[a for _, a in gs])
                    if r.status == 'violated':
                        v = self.try_replay(r.env, ins, rng, pts)
                        if v:
                            return out.violate(v[0], v[1])
                        out.inconclusive('goal not shown: %s' % (r.which,))
                    elif r.status == 'unknown':
                        out.inconclusive(r.detail)
            # reachability twin: the negated goal must be satisfiable here
            if k == 0 and pairs and not out.twin:
                r = S.equal_all([(E.add(pairs[0][1], E.ONE), pairs[0][0])], pc, timeout=10.)
                out.twin = 1 if r.status == 'violated' else 0
                if r.status == 'holds':
                    out.inconclusive('vacuous: assumptions unsatisfiable')
        if out.sample is None and pairs:
            out.sample = '%s: %s == %s under %s' % (self.id, E.show(E.lift(pairs[0][0]), 3),
                                                   E.show(E.lift(pairs[0][1]), 3),
                                                   [E.showb(c, 3) for c in pc][:3])

    def decide_equal(self, out, pairs, labels, pc, ins, rng, pts):
        out.obligations += len(pairs)
        r = S.equal_all(pairs, pc, timeout=self.timeout, labels=labels)
        if r.status == 'holds':
            return
        if r.status == 'violated':
            v = self.try_replay(r.env, ins, rng, pts)
            if v:
                out.violate(v[0], v[1])
                return
            # not reproducible in double precision: do the two sides differ beyond rounding?
            bad = []
            for p, lab in zip(pairs, labels):
                rr = S.equal_all([p], pc, timeout=self.timeout, labels=[lab])
                if rr.status != 'holds':
                    bad.append((p, lab))
            r2 = S.equal_all([b[0] for b in bad], pc, timeout=self.timeout, tol=1e-9,
                             labels=[b[1] for b in bad])
            if r2.status == 'holds':
                out.tolerant += len(bad)
                return
            v = self.try_replay(r2.env, ins, rng, pts)
            if v:
                out.violate(v[0], v[1])
                return
            which = [(w[0], E.show(w[1], 5), E.show(w[2], 5)) for w in (r2.which or r.which or [])]
            out.inconclusive('counterexample not reproduced by the real code: %s' % (which[:2],))
            return
        # unknown: look for a concrete disagreement, otherwise report undecided
        v = self.try_replay({}, ins, rng, pts)
        if v:
            out.violate(v[0], v[1])
        else:
            out.inconclusive(r.detail)

    # ---------------------------------------------------------------- concrete side
    def points_from_env(self, env, ins):
        pts = []
        for x in ins:
            p = {}
            for n, a in x.items():
                if self.pinned and n in self.pinned:
                    p[n] = self.pinned[n]
                    continue
                v = np.zeros(a.shape)
                for i in np.ndindex(*a.shape):
                    v[i] = env.get(a.view(np.ndarray)[i].args[0], 0.)
                p[n] = v
            pts.append(p)
        return pts

    def try_replay(self, env, ins, rng, pts0):
        """run the real code at the model's point (and near it); a disagreement is a violation"""
        cands = []
        if env:
            cands.append(self.points_from_env(env, ins))
            base = self.points_from_env(env, ins)
            cands.append([{n: v + 1e-3 * rng.standard_normal(v.shape) for n, v in p.items()}
                          for p in base])
            # overflow and underflow only show at points far out
            for f in self.scales:
                cands.append([{n: f * v for n, v in p.items()} for p in base])
        for _ in range(3):
            cands.append([self.sample(rng) for _ in range(self.history)])
        for pts in map(self.fix, cands):
            if not self.in_domain(pts, ins):
                continue
            bad = self.compare(pts, self.concrete(pts))
            if bad:
                return bad, self.replay_doc(pts)
        return None

    def in_domain(self, pts, ins):
        env = {}
        for x, p in zip(ins, pts):
            env.update(_env_of(x, p))
        conds = []
        for x in ins:
            conds += [E.blift(c) for c in self.domain(x)]
        return all(E.evaluate(conds, env)) if conds else True

    def concrete(self, pts):
        """the real OpenMDAO run over the history of points"""
        try:
            with quiet():
                prob = setup_problem(self.build_model(pts[0]))
                steps = []
                for p in pts:
                    for n, v in p.items():
                        if n not in self.params:
                            prob.set_val(n, v)
                    prob.run_model()
                    r = {'vals': {o: np.array(prob.get_val(o)) for o in self.outputs}}
                    if self.derivs and self.wrt:
                        t = prob.compute_totals(of=self.outputs, wrt=self.wrt)
                        r['totals'] = {(o, w): np.array(_pick(t, o, w)) for o in self.outputs
                                       for w in self.wrt}
                    steps.append(r)
            return {'steps': steps}
        except (Exception, SystemExit) as e:
            return {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()}

    def compare(self, pts, conc):
        """None, or a description of how the real run departs from the specification"""
        if 'error' in conc:
            return 'the real code fails: %s' % conc['error'][:300]
        for k, (p, c) in enumerate(zip(pts, conc['steps'])):
            x = self.sym_inputs(k)
            sp = self.spec(x)
            env = _env_of(x, p)
            ws = []
            for w in self.wrt:
                ws += list(x[w].view(np.ndarray).flat)
            for o in self.outputs:
                if sp.get(o) is None:
                    continue
                s = A.lift_arr(sp[o])
                if c['vals'][o].shape != s.shape:
                    return '%s has shape %s, expected %s' % (o, c['vals'][o].shape, s.shape)
                if self.value:
                    want = np.array(E.evaluate(list(s.flat), env), float)
                    got = np.ravel(c['vals'][o])
                    if not _close(got, want, self.tol):
                        i = _worst(got, want)
                        return '%s[%d] = %r, expected %r at step %d' % (o, i, got[i], want[i], k)
                if self.derivs and self.wrt:
                    g = E.grad(list(s.flat), ws)
                    off = 0
                    for w in self.wrt:
                        n = int(np.prod(self.inputs[w]))
                        want = np.array(E.evaluate([g[r][off + cc] for r in range(len(g))
                                                    for cc in range(n)], env), float)
                        got = np.ravel(c['totals'][o, w])
                        off += n
                        if got.shape != want.shape or not _close(got, want, 1e-6):
                            i = _worst(got, want) if got.shape == want.shape else -1
                            return 'd%s/d%s entry %d = %r, expected %r at step %d' % (
                                o, w, i, got[i], want[i], k)
            if self.goals:
                # variables, not constants: comparisons of constants would be folded exactly
                h = {'vals': {o: A.fresh('got:' + o, c['vals'][o].shape) for o in self.outputs}}
                for o in self.outputs:
                    env.update(_env_of({o: h['vals'][o]}, {o: c['vals'][o]}))
                for gi, g in enumerate(self.goals(x, h, sp)):
                    g = E.blift(g[0] if isinstance(g, tuple) else g)
                    if not _maybe(g, env)[0]:
                        return 'bound %d violated at step %d' % (gi, k)
        return None

    def replay_doc(self, pts):
        return {'case': self.id, 'history': [{n: np.asarray(v).tolist() for n, v in p.items()}
                                            for p in pts]}

    def replay(self, doc):
        pts = [{n: np.array(v) for n, v in p.items()} for p in doc['history']]
        return self.compare(pts, self.concrete(pts))


def _maybe(g, env, tol=1e-8):
    """(can be true, can be false) when the sides of a comparison are known up to rounding"""
    if g.op in ('true', 'false'):
        return g.op == 'true', g.op == 'false'
    if g.op == 'not':
        t, f = _maybe(g.args[0], env, tol)
        return f, t
    if g.op == 'and':
        r = [_maybe(a, env, tol) for a in g.args]
        return all(x[0] for x in r), any(x[1] for x in r)
    a, b = E.evaluate(list(g.args), env)
    sl = tol * (1 + abs(a) + abs(b))
    if not (a == a and b == b):
        return False, True
    if g.op == 'eq':
        return abs(a - b) <= sl, True
    return a < b + sl, a > b - sl


def _pick(t, o, w):
    return t[o, w] if (o, w) in t else t[o][w]


def _env_of(x, p):
    env = {}
    for n, a in x.items():
        v = np.broadcast_to(np.asarray(p[n], float), a.shape)
        for i in np.ndindex(*a.shape):
            env[a.view(np.ndarray)[i].args[0]] = float(v[i])
    return env


def _close(got, want, tol):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        return False
    both_nan = np.isnan(want)        # specification undefined here: nothing claimed
    ok = np.abs(got - want) <= tol * (1. + np.abs(want))
    return bool(np.all(ok | both_nan))


def _worst(got, want):
    d = np.abs(got - want)
    d = np.where(np.isnan(got) & ~np.isnan(want), np.inf, d)
    d = np.where(np.isnan(d), -1, d)
    return int(np.argmax(d)) if d.size else 0


# --------------------------------------------------------------------------- running a check
_CASES = None


def _limit_memory():
    """a case that needs more than its share is undecided, it does not end the run"""
    import resource
    import z3
    z3.set_param('memory_max_size', 2500)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def _work(args):
    idx, seed, tier, limit = args
    case = _CASES[idx]
    S.STATS = S.Stats()
    _limit_memory()
    t0 = time.time()

    def onalarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    try:
        out = case.run(seed * 100003 + int(hashlib.md5(case.id.encode()).hexdigest()[:6], 16), tier)
    except CaseTimeout:
        out = Outcome().inconclusive('time limit of %d s' % limit)
    except Unencodable as e:
        out = Outcome().inconclusive('not encodable: %s' % e)
    except Exception as e:
        out = Outcome().inconclusive('checker error %s: %s' % (type(e).__name__, e))
        out.what += '\n' + traceback.format_exc()
    finally:
        signal.alarm(0)
    out.wall = time.time() - t0
    out.stats = S.STATS.as_dict()
    return idx, out


def load_findings():
    path = os.path.join(VERIF, 'known-findings.json')
    try:
        with open(path) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def run_check(prop, title, cases, bounds, assumptions, tier, seed, case_limit=None, outside=None,
              procs=8):
    global _CASES
    _CASES = cases
    t0 = time.time()
    limit = case_limit or (120 if tier == 'quick' else 600)
    ids = [c.id for c in cases]
    assert len(set(ids)) == len(ids), 'duplicate case ids: %s' % [i for i in ids
                                                                  if ids.count(i) > 1][:3]
    work = [(i, seed, tier, limit) for i in range(len(cases))]
    ctx = mp.get_context('fork')
    results = {}
    with ctx.Pool(min(procs, max(1, len(cases))), maxtasksperchild=40) as pool:
        budget = 700 if tier == 'quick' else 5400
        bad = 0
        it = pool.imap_unordered(_work, work, chunksize=1)
        stop = None
        for _ in range(len(work)):
            try:
                idx, out = it.next(timeout=max(1., budget - (time.time() - t0)))
            except mp.TimeoutError:
                stop = 'not reached in %d s' % budget
                break
            results[idx] = out
            bad += out.status == 'violated'
            if bad > int(os.environ.get('SYMOT_MAXBAD', 20)):
                stop = 'not explored after 20 violations'
                break
        if stop:
            pool.terminate()
            for i in range(len(cases)):
                if i not in results:
                    results[i] = Outcome()
                    results[i].inconclusive(stop)
                    results[i].stats = S.Stats().as_dict()
    if os.environ.get('SYMOT_SLOW'):
        for i in sorted(results, key=lambda i: -results[i].wall)[:12]:
            print('%7.1f s %7d paths  %s' % (results[i].wall, results[i].paths, cases[i].id))
    stats = S.Stats()
    funcs = set()
    paths = conf = oblig = twins = tol = 0
    viol, inconc, known = [], [], []
    findings = {(f['property'], f['case']): f for f in load_findings() if not f.get('fixed')}
    for i, c in enumerate(cases):
        o = results[i]
        stats.merge(o.stats)
        funcs |= o.functions
        paths += o.paths
        conf += o.conformance
        oblig += o.obligations
        twins += o.twin
        tol += o.tolerant
        if o.status == 'violated':
            f = findings.get((prop, c.id))
            if f and (not f.get('match') or f['match'] in o.what):
                known.append((c, o, f))
            else:
                viol.append((c, o))
        elif o.status == 'inconclusive':
            inconc.append((c, o))
    rc = 0
    for c, o, f in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, c.id, f['what']))
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    if viol:
        os.makedirs(rdir, exist_ok=True)
    for k, (c, o) in enumerate(viol):
        path = os.path.join(rdir, '%s-%d.json' % (prop, k))
        doc = dict(o.replay or {'case': c.id})
        doc.update({'property': prop, 'what': o.what, 'repo': REPO})
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        print('  case %s: %s' % (c.id, o.what[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    for c, o in inconc[:20]:
        print('INCONCLUSIVE case %s: %s' % (c.id, o.what[:600]))
    if len(inconc) > 20:
        print('INCONCLUSIVE %d further cases' % (len(inconc) - 20))
    if rc == 0 and inconc:
        # an undecided case claims nothing; with nothing decided there is no answer
        if len(inconc) == len(cases):
            rc = 2
    wall = time.time() - t0
    samples = [results[i].sample for i in range(len(cases)) if results[i].sample]
    step = max(1, len(samples) // 5)
    cov = {
        'states': paths,
        'transitions': stats.queries,
        'traces_validated_against_impl': conf,
        'samples': samples[::step][:6] or [c.id for c in cases[:5]],
        'cases': len(cases),
        'cases_decided': len(cases) - len(inconc),
        'cases_undecided': [{'case': c.id, 'why': o.what[:200]} for c, o in inconc],
        'obligations': oblig,
        'obligations_only_up_to_rounding': tol,
        'cases_with_constants_at_one_value': sum(getattr(o, 'pinned', 0)
                                                 for o in results.values()),
        'reachability_twins_confirmed': twins,
        'functions_encoded': sorted(funcs),
        'queries_discharged': stats.results['unsat'],
        'queries_by_result': stats.results,
        'queries_total': stats.queries,
        'solver_time_s': round(stats.time, 3),
        'longest_query_s': round(stats.max_query, 3),
        'bounds': bounds,
        'outside_bounds': outside or '',
        'meaning': 'states = feasible symbolic paths of the real code executed; transitions = '
                   'SMT queries decided; traces_validated_against_impl = concrete runs of the '
                   'real OpenMDAO model compared with both the encoding and the specification',
        'known_findings': ['%s: %s' % (c.id, f['what']) for c, o, f in known],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths, %d obligations, %d queries (%.1f s solver), %d undecided, '
          '%d violations, %.1f s' % (prop, title, len(cases), paths, oblig, stats.queries,
                                     stats.time, len(inconc), len(viol), wall))
    return rc
