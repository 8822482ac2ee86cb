"""p-norms."""
from fractions import Fraction
from checks.common import *

PROP = 'C08'
TITLE = 'p-norms'
ASSUMPTIONS = ASSUME + ['even roots: r >= 0 and r**p == a for a >= 0']
SHAPES = [(1,), (2,), (3,), (2, 2), (2, 3), (3, 1), (1, 3), (2, 1, 2), (2, 2, 2), (2, 3, 2)]
PS = [2, 4, 6, 8]
BOUNDS = dict(BOUNDS, shapes=str(SHAPES), p=str(PS) + ' (10 and 12 in the thorough tier)',
              axes='none, every axis (negative axes too), every proper subset of two or more axes '
                   'in either order', operands=', '.join(MODES))


def powsum(xs, p):
    return ssum([x ** p for x in xs])


def norm(xs, p):
    """the p-th root; sums that do not vanish are in the domain"""
    return powsum(xs, p) ** (Fraction(1, p))


def s_norm(x, p, axes=None):
    x = raw(x)
    if axes is None:
        o = obj((1,))
        o[0] = norm(list(x.flat), p)
        return arr(o)
    axes = [a % x.ndim for a in axes]
    keep = [a for a in range(x.ndim) if a not in axes]
    o = obj(tuple(x.shape[a] for a in keep))
    for i in np.ndindex(*o.shape):
        o[i] = norm([x[j] for j in np.ndindex(*x.shape)
                     if all(j[a] == i[k] for k, a in enumerate(keep))], p)
    return arr(o)


def s_dom(x, p, axes=None):
    """no group of entries is entirely zero (the norm has no derivative there)"""
    x = raw(x)
    if axes is None:
        return [E.bor(*[E.bnot(E.eq(v, E.ZERO)) for v in x.flat])]
    axes = [a % x.ndim for a in axes]
    keep = [a for a in range(x.ndim) if a not in axes]
    return [E.bor(*[E.bnot(E.eq(x[j], E.ZERO)) for j in np.ndindex(*x.shape)
                    if all(j[a] == i[k] for k, a in enumerate(keep))])
            for i in np.ndindex(*[x.shape[a] for a in keep])]


def case(id, s, p, axis, mode='input'):
    axes = None if axis is None else (axis if isinstance(axis, tuple) else (axis,))

    def build(x):
        kw = {} if p == 'default' else {'pnorm_type': p}
        if axis is not None:
            kw['axis'] = axis
        return ot.pnorm(x, **kw)
    q = 2 if p == 'default' else p
    return op_case(id, build, {'x': s}, lambda x: s_norm(x, q, axes), mode=mode,
                   domain=lambda x: s_dom(x, q, axes),
                   sample=lambda r: [r.uniform(.4, 1.6, size=s) * r.choice([-1, 1], size=s)])


def cases(tier):
    out = []
    for s in SHAPES:
        for p in ['default'] + PS + ([10, 12] if tier == 'thorough' else []):
            out.append(case('norm %s p=%s' % (s, p), s, p, None))
            if len(s) > 1:
                axs = list(range(-len(s), len(s)))
                for n in range(2, len(s)):
                    axs += [c for c in itertools.permutations(range(len(s)), n)]
                    axs += [tuple(a - len(s) for a in c)
                            for c in itertools.combinations(range(len(s)), n)]
                for ax in axs:
                    out.append(case('norm %s p=%s axis %s' % (s, p, ax), s, p, ax))
    for m in MODES[1:]:
        for p in (2, 4):
            out.append(case('norm p=%d %s' % (p, m), (2, 2), p, None, m))
            out.append(case('norm axis p=%d %s' % (p, m), (2, 3), p, 0, m))
    return out
