"""Smooth maximum and minimum."""
import math
from checks.common import *

PROP = 'C07'
TITLE = 'smooth maximum and minimum'
ASSUMPTIONS = ASSUME + ['exp is positive, increasing, exp(s+t) = exp(s)exp(t), exp(t) >= 1+t; '
                        'log(exp(t)) = t, log t <= t-1, log increasing through 1']
SHAPES = [(2,), (3,), (2, 2), (2, 3), (1, 3), (2, 1, 2), (2, 2, 2)]
RHOS = [20., 1., 5., 0.5, 50.]
BOUNDS = dict(BOUNDS, shapes=str(SHAPES), rho='%s and a symbolic positive rho' % RHOS,
              operands='1 operand (all entries, or each axis, negative axes too), 2 to 4 operands '
                       'elementwise; %s; repeated operands' % ', '.join(MODES),
              bounds_goal='extremum <= smooth maximum <= extremum + log(n)/rho (mirrored for '
                          'minimum), '
                          'no exponential has a positive argument, '
                          'and the argument of the logarithm is at least 1/2 (some exponential does '
                          'not vanish)')


def ks(xs, rho, mx):
    """1/rho log sum exp(rho x), negated twice for the minimum"""
    rho = E.lift(rho)
    if not mx:
        xs = [-x for x in xs]
    v = ssum([(rho * x).exp() for x in xs]).log() / rho
    return v if mx else -v


def s_all(x, rho, mx):
    o = obj((1,))
    o[0] = ks(els(x), rho, mx)
    return arr(o)


def s_axis(x, axis, rho, mx):
    x = raw(x)
    axis %= x.ndim
    shp = x.shape[:axis] + x.shape[axis + 1:]
    o = obj(shp)
    for i in np.ndindex(*shp):
        o[i] = ks([x[i[:axis] + (k,) + i[axis:]] for k in range(x.shape[axis])], rho, mx)
    return arr(o)


def s_elem(xs, rho, mx):
    xs = [raw(x) for x in xs]
    o = obj(xs[0].shape)
    for i in np.ndindex(*o.shape):
        o[i] = ks([x[i] for x in xs], rho, mx)
    return arr(o)


def groups(kind, xs, axis):
    """the sets of entries over which an extremum is taken, in order of the output entries"""
    if kind == 'all':
        return [els(xs[0])]
    if kind == 'axis':
        x = raw(xs[0])
        axis %= x.ndim
        shp = x.shape[:axis] + x.shape[axis + 1:]
        return [[x[i[:axis] + (k,) + i[axis:]] for k in range(x.shape[axis])]
                for i in np.ndindex(*shp)]
    xs = [raw(x) for x in xs]
    return [[x[i] for x in xs] for i in np.ndindex(*xs[0].shape)]


def exps_nonpositive(roots):
    out = []
    for n in E.topo([r for r in roots if isinstance(r, E.Sym)]):
        if n.op == 'f:exp':
            out.append(n.args[0] <= 0)
    return out


def logs_bounded(roots):
    """the argument of every logarithm stays away from zero: no operand makes the exponentials
    all vanish"""
    out = []
    for n in E.topo([r for r in roots if isinstance(r, E.Sym)]):
        if n.op == 'f:log':
            ts = [e.args[0] for e in E.topo([n.args[0]]) if e.op == 'f:exp']
            if ts:
                out.append((E.const(.5) <= n.args[0],
                            [t + 1 <= t.exp() for t in ts] + [E.ZERO <= t.exp() for t in ts]))
    return out


def bound_goals(kind, names, axis, rho, mx):
    def goals(x, h, sp):
        xs = [x[n] for n in names]
        y = els(h['vals']['y'])
        r = E.lift(rho)
        out = []
        for v, g in zip(y, groups(kind, xs, axis)):
            # only the exponentials the code itself evaluates
            if isinstance(v, E.Sym) and v.op != 'c':
                out += exps_nonpositive([v]) + logs_bounded([v])
            # extremum <= v <= extremum + log(n)/rho; instances of: log is increasing
            sg = 1 if mx else -1
            ts = [r * e * sg for e in g]
            S = ssum([t.exp() for t in ts])
            n = len(g)
            ln = E.const(math.log(n) + 1e-12)
            near = []
            for e, t in zip(g, ts):
                out.append((e <= v if mx else v <= e,
                            [E.bnot(E.band(t.exp() <= S, E.bnot(t <= S.log())))]))
                near.append(v <= e + ln / r if mx else e - ln / r <= v)
            out.append((E.bnot(E.band(*[E.bnot(c) for c in near])),
                        [E.bnot(E.band(S <= n * t.exp(), E.bnot(S.log() <= ln + t)))
                         for t in ts]))
        return out
    return goals


def case(id, mx, kind, shapes, axis, rho, mode='input', pat=None, goals=False):
    f = ot.max if mx else ot.min
    names = 'abcd'[:len(shapes)]
    pat = pat or tuple(range(len(shapes)))

    def build(*v):
        kw = {} if rho is None else {'rho': rho}
        if axis is not None:
            kw['axis'] = axis
        return f(*[v[p] for p in pat], **kw)
    r = 20. if rho is None else rho

    def spec(*v):
        if kind == 'all':
            return s_all(v[0], r, mx)
        if kind == 'axis':
            return s_axis(v[0], axis, r, mx)
        return s_elem([v[p] for p in pat], r, mx)
    c = op_case(id, build, dict(zip(names, shapes)), spec, mode=mode,
                sample=uni(-.7, .9, *shapes), definedness=False)
    if goals:
        c.goals = bound_goals(kind, names, axis, r, mx)
        c.exp_axioms = True
        c.scales = (1e2, 1e4)
    return c


def rho_case(mx, kind, shapes, axis):
    f = ot.max if mx else ot.min
    names = 'abcd'[:len(shapes)]
    inputs = dict(zip(names, shapes), rho=())

    def fn(g, p):
        v = [g.declare_input(n, shape=s, val=np.full(s, .7)) for n, s in zip(names, shapes)]
        kw = {'axis': axis} if kind == 'axis' else {}
        g.register_output('y', f(*v, rho=p['rho'], **kw))

    def spec(ins):
        v = [ins[n] for n in names]
        r = raw(ins['rho'])[()]
        if kind == 'all':
            return {'y': s_all(v[0], r, mx)}
        if kind == 'axis':
            return {'y': s_axis(v[0], axis, r, mx)}
        return {'y': s_elem(v, r, mx)}
    return Case('%s %s %s axis %s rho symbolic' % ('max' if mx else 'min', kind, shapes, axis),
                pgroup(fn), inputs, ['y'], spec, params={'rho': ()},
                domain=lambda ins: [raw(ins['rho'])[()] > 0], definedness=False,
                sample=lambda r: dict({n: r.uniform(-.7, .9, size=s)
                                       for n, s in zip(names, shapes)}, rho=r.uniform(.5, 20.)))


def cases(tier):
    out = []
    for mx in (True, False):
        nm = 'max' if mx else 'min'
        for s in SHAPES:
            for rho in [None] + (RHOS if len(s) < 3 or tier == 'thorough' else []):
                g = rho is None and np.prod(s) <= 4
                out.append(case('%s all %s rho %s' % (nm, s, rho), mx, 'all', [s], None, rho,
                                goals=g))
                if len(s) > 1:
                    for ax in range(-len(s), len(s)):
                        if ax < 0 and rho not in (None, 5.):
                            continue
                        out.append(case('%s axis %d %s rho %s' % (nm, ax, s, rho), mx, 'axis',
                                        [s], ax, rho, goals=g and ax >= 0))
                for n in (2, 3, 4):
                    out.append(case('%s of %d %s rho %s' % (nm, n, s, rho), mx, 'elem', [s] * n,
                                    None, rho, goals=g and n < 4))
        for m in MODES[1:]:
            out.append(case('%s all %s' % (nm, m), mx, 'all', [(2, 2)], None, None, mode=m))
            out.append(case('%s axis %s' % (nm, m), mx, 'axis', [(2, 2)], 1, None, mode=m))
            out.append(case('%s elem %s' % (nm, m), mx, 'elem', [(2, 2)] * 2, None, None, mode=m))
        for pat in ((0, 0), (0, 1, 0), (0, 0, 1)):
            out.append(case('%s places %s' % (nm, pat), mx, 'elem', [(2,)] * (max(pat) + 1), None,
                            None, pat=pat))
        for s in ((2,), (2, 2)):
            out.append(rho_case(mx, 'all', [s], None))
            out.append(rho_case(mx, 'elem', [s, s], None))
            out.append(rho_case(mx, 'elem', [s, s, s], None))
            if len(s) > 1:
                out.append(rho_case(mx, 'axis', [s], 0))
                out.append(rho_case(mx, 'axis', [s], 1))
    return out
