"""Linear, power and linear-power combination components placed by hand."""
from checks.common import *
import openmdao.api as om
from omtools.comps.linearcombination_comp import LinearCombinationComp
from omtools.comps.arithmetic_comps.power_combination_comp import PowerCombinationComp
from omtools.comps.linearpowercombination import LinearPowerCombinationComp

PROP = 'C24'
TITLE = 'combination components'
BOUNDS = dict(BOUNDS, shapes='(1,), (3,), (2,2), (2,1,2)', inputs='one to three',
              options='coefficients, constants and coefficients of products as symbolic numbers, '
                      'symbolic arrays, lists of both, arrays with one number per input, and '
                      'dictionaries; real exponents, symbolic on positive bases, and exponents '
                      '-2..4, 1/2, 0; up to three terms; names that are prefixes of one another; '
                      'inputs fed by other components; two components given the same options')
ASSUMPTIONS = ASSUME
SHAPES = [(1,), (3,), (2, 2), (2, 1, 2)]
NAMES = ['x', 'xx', 'a']


def comp_case(id, shape, names, comps, spec, params=None, domain=None, sample=None, feed=False):
    """comps(p) -> [(name, component)], inputs x.. declared by the components themselves

    spec(values per entry: {input: value}, {param: value at the entry}) -> {output: value}
    """
    params = params or {}
    inputs = {n: shape for n in names}
    inputs.update(params)
    outs = sorted(spec({n: E.lift(2) for n in names},
                       {n: E.lift(3) for n in params}))

    def build(p):
        g = om.Group()
        if feed:
            # the inputs are outputs of a component that runs before
            e = om.ExecComp(['%s=2*s_%s+1' % (n, n) for n in names],
                            **{v: {'shape': shape} for n in names for v in (n, 's_' + n)})
            g.add_subsystem('feed', e, promotes=['*'])
        for n, c in comps(p):
            g.add_subsystem(n, c, promotes=['*'])
        return g

    def sp(ins):
        ps = {n: np.broadcast_to(raw(ins[n]), shape) if params[n] in ((), shape) else raw(ins[n])
              for n in params}
        res = {o: obj(shape) for o in outs}
        for i in np.ndindex(*shape):
            r = spec({n: raw(ins[n])[i] for n in names},
                     {n: ps[n][i] if params[n] in ((), shape) else ps[n] for n in params})
            for o in outs:
                res[o][i] = r[o]
        return {o: arr(v) for o, v in res.items()}
    lo, hi = sample or (.5, 1.6)
    smp = lambda r: {n: np.asarray(r.uniform(lo, hi, size=s)) for n, s in inputs.items()}
    dom = (lambda ins: domain(ins)) if domain else None
    make = build if params else (lambda: build({}))
    return Case(id, make, inputs, outs, sp, domain=dom, sample=smp, params=params)


def positive(*names):
    return lambda ins: [c for n in names for c in pos(ins[n])]


def nz(*names):
    return lambda ins: [c for n in names for c in nonzero(ins[n])]


def vals(shape, n):
    return [np.full(shape, .7 + .1 * k) for k in range(n)]


def linear(shape, **k):
    n = len(k.get('coeffs_dict') or (k['in_names'] if isinstance(k['in_names'], list) else 'x'))
    return LinearCombinationComp(shape=shape, out_name=k.pop('out_name', 'y'),
                                 in_vals=vals(shape, n), **k)


def power(shape, **k):
    n = len(k.get('powers_dict') or (k['in_names'] if isinstance(k['in_names'], list) else 'x'))
    return PowerCombinationComp(shape=shape, out_name=k.pop('out_name', 'y'),
                                in_vals=vals(shape, n), **k)


def prod(xs):
    r = E.ONE
    for x in xs:
        r = E.mul(r, E.lift(x))
    return r


def total(xs):
    r = E.ZERO
    for x in xs:
        r = E.add(r, E.lift(x))
    return r


def linear_cases(tier):
    out = []
    for s in SHAPES:
        for n in (1, 2, 3):
            ns = NAMES[:n]
            if n > 1 or s == (3,):
                # coefficients: one number for all, one per input
                out.append(comp_case(
                    'linear %s one coefficient for %d' % (s, n), s, ns,
                    lambda p, s=s, ns=ns: [('c', linear(s, in_names=list(ns), coeffs=p['k'],
                                                        constant=p['d']))],
                    lambda x, p, ns=ns: {'y': total([p['k'] * x[m] for m in ns] + [p['d']])},
                    params={'k': (), 'd': ()}))
            ps = {'k_' + m: () if j % 2 else s for j, m in enumerate(ns)}
            out.append(comp_case(
                'linear %s list of %d' % (s, n), s, ns,
                lambda p, s=s, ns=ns: [('c', linear(s, in_names=list(ns),
                                                    coeffs=[p['k_' + m] for m in ns],
                                                    constant=p['d']))],
                lambda x, p, ns=ns: {'y': total([p['k_' + m] * x[m] for m in ns] + [p['d']])},
                params=dict(ps, d=s)))
            out.append(comp_case(
                'linear %s dictionary of %d' % (s, n), s, ns,
                lambda p, s=s, ns=ns: [('c', linear(s, coeffs_dict={m: p['k_' + m] for m in
                                                                    ns[::-1]},
                                                    constant=p['d']))],
                lambda x, p, ns=ns: {'y': total([p['k_' + m] * x[m] for m in ns] + [p['d']])},
                params=dict(ps, d=())))
        out.append(comp_case(
            'linear %s array of coefficients' % (s,), s, NAMES,
            lambda p, s=s: [('c', linear(s, in_names=list(NAMES),
                                         coeffs=np.array([2., -3., .5])))],
            lambda x, p: {'y': 2 * x['x'] - 3 * x['xx'] + x['a'] / 2}))
        out.append(comp_case(
            'linear %s name' % (s,), s, ['x'],
            lambda p, s=s: [('c', linear(s, in_names='x', coeffs=p['k']))],
            lambda x, p: {'y': p['k'] * x['x']}, params={'k': ()}))
        out.append(comp_case(
            'linear %s defaults' % (s,), s, NAMES[:2],
            lambda p, s=s: [('c', linear(s, in_names=NAMES[:2]))],
            lambda x, p: {'y': x['x'] + x['xx']}))
        # the same lists given to two components
        out.append(comp_case(
            'linear %s shared options' % (s,), s, NAMES[:2],
            lambda p, s=s: shared(lambda **k: linear(s, **k), 'coeffs', p, NAMES[:2]),
            lambda x, p: {'y': total([p['k'] * x['x'], p['l'] * x['xx']]),
                          'z': total([p['k'] * x['x'], p['l'] * x['xx']])},
            params={'k': (), 'l': s}))
        out.append(comp_case(
            'linear %s fed' % (s,), s, NAMES[:2],
            lambda p, s=s: [('c', linear(s, in_names=NAMES[:2], coeffs=[p['k'], 2.],
                                         constant=p['d']))],
            lambda x, p: {'y': p['k'] * x['x'] + 2 * x['xx'] + p['d']},
            params={'k': s, 'd': ()}))
    return out


def shared(make, opt, p, ns):
    names, cs = list(ns), [p['k'], p['l']]
    return [('c', make(in_names=names, out_name='y', **{opt: cs})),
            ('d', make(in_names=names, out_name='z', **{opt: cs}))]


def power_cases(tier):
    out = []
    for s in SHAPES:
        for n in (1, 2, 3):
            ns = NAMES[:n]
            ps = {'q_' + m: () if j % 2 else s for j, m in enumerate(ns)}
            out.append(comp_case(
                'power %s list of %d' % (s, n), s, ns,
                lambda p, s=s, ns=ns: [('c', power(s, in_names=list(ns),
                                                   powers=[p['q_' + m] for m in ns],
                                                   coeff=p['k']))],
                lambda x, p, ns=ns: {'y': prod([x[m] ** p['q_' + m] for m in ns] + [p['k']])},
                params=dict(ps, k=s), domain=positive(*ns)))
            out.append(comp_case(
                'power %s dictionary of %d' % (s, n), s, ns,
                lambda p, s=s, ns=ns: [('c', power(s, powers_dict={m: p['q_' + m] for m in
                                                                   ns[::-1]}, coeff=p['k']))],
                lambda x, p, ns=ns: {'y': prod([x[m] ** p['q_' + m] for m in ns] + [p['k']])},
                params=dict(ps, k=()), domain=positive(*ns)))
        # whole exponents: negative bases as well
        for q in ((1,), (2,), (3,), (0,), (1, 2), (2, 1), (0, 2), (1, 2, 3), (2, 1, 4), (1, 1, 1),
                  (3, 0, 2), (0, 0, 1), (0, 2, 0)):
            for ns in [NAMES[:len(q)]]:
                out.append(comp_case(
                    'power %s to %s' % (s, q), s, ns,
                    lambda p, s=s, ns=ns, q=q: [('c', power(s, in_names=list(ns),
                                                            powers=list(map(float, q)),
                                                            coeff=p['k']))],
                    lambda x, p, ns=ns, q=q: {'y': prod([x[n] ** E.lift(e) for n, e in
                                                         zip(ns, q) if e] + [p['k']])},
                    params={'k': ()}))
        for qs in ((-1, 2, .5), (.5, -2, 1), (-.5, 1.5, -1), (3, .5, -2)):
            out.append(comp_case(
                'power %s to %s' % (s, qs), s, NAMES,
                lambda p, s=s, q=qs: [('c', power(s, in_names=list(NAMES), powers=list(q),
                                                  coeff=p['k']))],
                lambda x, p, q=qs: {'y': prod([x[n] ** E.lift(e) for n, e in zip(NAMES, q)]
                                              + [p['k']])},
                params={'k': s}, domain=positive(*NAMES)))
        out.append(comp_case(
            'power %s one exponent for two' % (s,), s, NAMES[:2],
            lambda p, s=s: [('c', power(s, in_names=NAMES[:2], powers=2))],
            lambda x, p: {'y': x['x'] ** 2 * x['xx'] ** 2}))
        out.append(comp_case(
            'power %s array of exponents' % (s,), s, NAMES[:2],
            lambda p, s=s: [('c', power(s, in_names=NAMES[:2], powers=np.array([2., 3.])))],
            lambda x, p: {'y': x['x'] ** 2 * x['xx'] ** 3}))
        out.append(comp_case(
            'power %s name' % (s,), s, ['x'],
            lambda p, s=s: [('c', power(s, in_names='x', powers=3, coeff=p['k']))],
            lambda x, p: {'y': p['k'] * x['x'] ** 3}, params={'k': s}))
        out.append(comp_case(
            'power %s shared options' % (s,), s, NAMES[:2],
            lambda p, s=s: shared(lambda **k: power(s, **k), 'powers', p, NAMES[:2]),
            lambda x, p: {o: prod([x['x'] ** p['k'], x['xx'] ** p['l']]) for o in 'yz'},
            params={'k': (), 'l': s}, domain=positive('x', 'xx')))
    return out


def term(c, d):
    return c, d


def lp_cases(tier):
    out = []
    TERMS = {
        'one': [(('k0', {'x': 2.}))],
        'two': [('k0', {'x': 1., 'xx': 2.}), ('k1', {'x': 3., 'a': 1.})],
        'separate': [('k0', {'x': 1.}), ('k1', {'xx': 1.}), ('k2', {'a': 2.})],
        'reversed': [('k0', {'a': 2., 'x': 1.}), ('k1', {'x': 2., 'a': 1.}), ('k2', {'xx': 1.})],
        'zeroth': [('k0', {'x': 0., 'xx': 2.}), ('k1', {'x': 1., 'a': 0.})],
        'same': [('k0', {'x': 2.}), ('k1', {'x': 2.}), ('k2', {'x': 1.})],
    }
    FRAC = {
        'negative': [('k0', {'x': -1., 'xx': .5}), ('k1', {'xx': -2., 'a': 1.5})],
    }
    for s in SHAPES:
        for nm, ts in list(TERMS.items()) + list(FRAC.items()):
            ns = [n for n in NAMES if any(n in d for _, d in ts)]
            ks = [k for k, _ in ts]
            out.append(comp_case(
                'linear power %s terms %s' % (s, nm), s, ns,
                lambda p, s=s, ts=ts: [('c', LinearPowerCombinationComp(
                    shape=s, out_name='y', constant=p['d'],
                    terms_list=[(1.5 - j, dict(d)) for j, (k, d) in enumerate(ts)]))],
                lambda x, p, ts=ts: {'y': total([prod([x[n] ** E.lift(e) for n, e in d.items() if e]
                                                      + [E.lift(1.5 - j)])
                                                 for j, (k, d) in enumerate(ts)] + [p['d']])},
                params={'d': s}, domain=positive(*ns) if nm in FRAC else None))
            # the same formula by arrays; coefficients in a list
            P = np.array([[d.get(n, 0.) for n in ns] for _, d in ts])
            out.append(comp_case(
                'linear power %s arrays %s' % (s, nm), s, ns,
                lambda p, s=s, ts=ts, ns=ns, P=P, ks=ks: [('c', LinearPowerCombinationComp(
                    shape=s, out_name='y', constant=p['d'], in_names=list(ns), powers=P.copy(),
                    coeffs=[p[k] for k in ks]))],
                lambda x, p, ts=ts: {'y': total([prod([x[n] ** E.lift(e) for n, e in d.items() if e]
                                                      + [p[k]])
                                                 for k, d in ts] + [p['d']])},
                params=dict({k: () if j % 2 else s for j, k in enumerate(ks)}, d=()),
                domain=positive(*ns) if nm in FRAC else None))
    return out


def cases(tier):
    return linear_cases(tier) + power_cases(tier) + lp_cases(tier)
