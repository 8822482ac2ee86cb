"""Sums and averages."""
from checks.common import *

PROP = 'C05'
TITLE = 'sums and averages'
ASSUMPTIONS = ASSUME


def reduce_(vs, axes, average):
    vs = [raw(v) for v in vs]
    s = vs[0].shape
    if axes is None and len(vs) == 1:
        o = obj((1,))
        o[0] = ssum(vs[0].flat)
        n = vs[0].size
    elif axes is None:
        o = obj(s)
        for i in np.ndindex(*s):
            o[i] = ssum(v[i] for v in vs)
        n = len(vs)
    else:
        ax = [a % len(s) for a in axes]
        keep = [k for k in range(len(s)) if k not in ax]
        shp = tuple(s[k] for k in keep)
        o = obj(shp)
        n = len(vs)
        for k in ax:
            n *= s[k]
        for i in np.ndindex(*shp):
            ts = []
            for c in np.ndindex(*[s[k] for k in ax]):
                j = [0] * len(s)
                for p, k in enumerate(keep):
                    j[k] = i[p]
                for p, k in enumerate(ax):
                    j[k] = c[p]
                ts += [v[tuple(j)] for v in vs]
            o[i] = ssum(ts)
    if average:
        for i in np.ndindex(*o.shape):
            o[i] = o[i] / n
    return arr(o)


SHAPES = [(1,), (4,), (2, 3), (3, 2), (2, 1, 3), (2, 3, 2), (2, 2, 1, 3)]
FNS = {'sum': (ot.sum, False), 'average': (ot.average, True)}


def axes_of(s, tier):
    r = [None]
    n = len(s)
    for k in range(1, n):
        r += list(itertools.combinations(range(n), k))
    if n == 2:
        r += [(-1,), (-2,)]
    if n == 3:
        r += [(2, 0), (1, 0), (-1,), (-3, -1)]
    if n == 4:
        r += [(3, 1), (2, 0, 1)]
    return r


BOUNDS = dict(BOUNDS, shapes=str(SHAPES), axes='None and every nonempty proper subset of the axes, '
              'in ascending order and some in other orders or negative',
              operands='1 to 4 (5 in thorough) operands; %s; repeated operands' % ', '.join(MODES))
OUTSIDE = OUTSIDE + '; reduction over all axes through axes= (rejected loudly by omtools)'


def cases(tier):
    out = []
    for nm, (f, avg) in FNS.items():
        for s in SHAPES:
            for ax in axes_of(s, tier):
                for n in (1, 2, 3) + ((4, 5) if tier == 'thorough' or len(s) < 3 else ()):
                    if n > 2 and len(s) > 3 and tier == 'quick':
                        continue
                    names = 'abcde'[:n]
                    out.append(op_case('%s%s axes %s of %d' % (nm, s, ax, n),
                                       lambda *v, f=f, ax=ax: f(*v, axes=ax),
                                       {k: s for k in names},
                                       lambda *v, ax=ax, avg=avg: reduce_(v, ax, avg)))
        for s, ax in (((2, 3), None), ((2, 3), (0,)), ((2, 3, 2), (0, 2)), ((2, 3, 2), (1,))):
            for m in MODES[1:]:
                for n in (1, 2, 3):
                    out.append(op_case('%s%s axes %s of %d %s' % (nm, s, ax, n, m),
                                       lambda *v, f=f, ax=ax: f(*v, axes=ax),
                                       {k: s for k in 'abc'[:n]},
                                       lambda *v, ax=ax, avg=avg: reduce_(v, ax, avg), mode=m))
            for pat in ((0, 0), (0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1, 1)):
                n = max(pat) + 1
                out.append(op_case('%s%s axes %s places %s' % (nm, s, ax, pat),
                                   lambda *v, f=f, ax=ax, pat=pat: f(*[v[p] for p in pat],
                                                                     axes=ax),
                                   {k: s for k in 'ab'[:n]},
                                   lambda *v, ax=ax, avg=avg, pat=pat:
                                   reduce_([v[p] for p in pat], ax, avg)))
    out.append(op_case('average of sum', lambda a, b: ot.average(ot.sum(a, b, axes=(0,)), b[0, :] if 0
                       else ot.sum(b, axes=(0,))), {'a': (2, 3), 'b': (2, 3)},
                       lambda a, b: reduce_([reduce_([a, b], (0,), False),
                                             reduce_([b], (0,), False)], None, True)))
    return out
