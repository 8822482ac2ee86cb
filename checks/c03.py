"""Vector, matrix and tensor products."""
from checks.common import *

PROP = 'C03'
TITLE = 'vector, matrix and tensor products'
ASSUMPTIONS = ASSUME


def s_matmat(a, b):
    a, b = raw(a), raw(b)
    if b.ndim == 1:
        return s_matvec(a, b)
    o = obj((a.shape[0], b.shape[1]))
    for i, j in np.ndindex(*o.shape):
        o[i, j] = ssum(a[i, k] * b[k, j] for k in range(a.shape[1]))
    return arr(o)


def s_matvec(a, b):
    a, b = raw(a), raw(b)
    o = obj((a.shape[0],))
    for i in range(a.shape[0]):
        o[i] = ssum(a[i, k] * b[k] for k in range(a.shape[1]))
    return arr(o)


def s_vdot(a, b):
    a, b = raw(a), raw(b)
    o = obj((1,))
    o[0] = ssum(a[k] * b[k] for k in range(a.shape[0]))
    return arr(o)


def s_dot(a, b, axis):
    a, b = raw(a), raw(b)
    axis %= a.ndim
    shp = a.shape[:axis] + a.shape[axis + 1:]
    o = obj(shp)
    for i in np.ndindex(*shp):
        o[i] = ssum(a[i[:axis] + (k,) + i[axis:]] * b[i[:axis] + (k,) + i[axis:]]
                    for k in range(a.shape[axis]))
    return arr(o)


def s_inner(a, b, axes):
    a, b = raw(a), raw(b)
    ax = [x % a.ndim for x in axes[0]]
    bx = [x % b.ndim for x in axes[1]]
    af = [k for k in range(a.ndim) if k not in ax]
    bf = [k for k in range(b.ndim) if k not in bx]
    shp = tuple(a.shape[k] for k in af) + tuple(b.shape[k] for k in bf)
    o = obj(shp)
    for i in np.ndindex(*shp):
        ts = []
        for c in np.ndindex(*[a.shape[k] for k in ax]):
            ia, ib = [0] * a.ndim, [0] * b.ndim
            for p, k in enumerate(af):
                ia[k] = i[p]
            for p, k in enumerate(bf):
                ib[k] = i[len(af) + p]
            for p, (k, l) in enumerate(zip(ax, bx)):
                ia[k] = c[p]
                ib[l] = c[p]
            ts.append(a[tuple(ia)] * b[tuple(ib)])
        o[i] = ssum(ts)
    return arr(o)


def s_outer(a, b):
    a, b = raw(a), raw(b)
    o = obj(a.shape + b.shape)
    for i in np.ndindex(*a.shape):
        for j in np.ndindex(*b.shape):
            o[i + j] = a[i] * b[j]
    return arr(o)


def s_cross(a, b, axis):
    a, b = raw(a), raw(b)
    axis %= a.ndim
    o = obj(a.shape)
    for i in np.ndindex(*a.shape):
        k = i[axis]
        j1, j2 = (k + 1) % 3, (k + 2) % 3
        p = i[:axis] + (j1,) + i[axis + 1:]
        q = i[:axis] + (j2,) + i[axis + 1:]
        o[i] = a[p] * b[q] - a[q] * b[p]
    return arr(o)


OPS = []


def op(name, build, spec, sa, sb):
    OPS.append((name, build, spec, sa, sb))


for sa, sb in [((2, 3), (3, 4)), ((3, 2), (2, 2)), ((1, 3), (3, 1)), ((3, 1), (1, 2)),
               ((2, 3), (3, 1)), ((1, 1), (1, 1)), ((2, 2), (2, 2)), ((4, 2), (2, 3))]:
    op('matmat%s%s' % (sa, sb), lambda a, b: ot.matmat(a, b), s_matmat, sa, sb)
for sa, sb in [((2, 3), (3,)), ((3, 2), (2,)), ((1, 2), (2,)), ((3, 1), (1,)), ((3, 3), (3,))]:
    op('matmat%s%s' % (sa, sb), lambda a, b: ot.matmat(a, b), s_matmat, sa, sb)
    op('matvec%s%s' % (sa, sb), lambda a, b: ot.matvec(a, b), s_matvec, sa, sb)
for n in (1, 2, 3, 5):
    op('dot(%d)' % n, lambda a, b: ot.dot(a, b), s_vdot, (n,), (n,))
    op('inner(%d)' % n, lambda a, b: ot.inner(a, b), s_vdot, (n,), (n,))
for s, ax in [((3, 2), 0), ((2, 3), 1), ((3, 3), 0), ((3, 3), 1), ((2, 3, 2), 1), ((2, 2, 3), 2),
              ((3, 2, 1), 0), ((2, 3), -1), ((3, 2, 2), -3)]:
    op('dot%s axis %d' % (s, ax), lambda a, b, ax=ax: ot.dot(a, b, axis=ax),
       lambda a, b, ax=ax: s_dot(a, b, ax), s, s)
    op('cross%s axis %d' % (s, ax), lambda a, b, ax=ax: ot.cross(a, b, axis=ax),
       lambda a, b, ax=ax: s_cross(a, b, ax), s, s)
op('cross(3,)', lambda a, b: ot.cross(a, b, axis=0), lambda a, b: s_cross(a, b, 0), (3,), (3,))
op('cross(3,)-1', lambda a, b: ot.cross(a, b, axis=-1), lambda a, b: s_cross(a, b, 0), (3,), (3,))
for sa, sb, axes in [((2, 3), (3, 2), ([1], [0])), ((2, 3), (2, 4), ([0], [0])),
                     ((2, 3, 2), (3, 2), ([1], [0])), ((2, 3, 2), (3, 2), ([1, 0], [0, 1])),
                     ((2, 3, 2), (2, 3, 2), ([0, 2], [2, 0])), ((2, 3), (2, 3, 2), ([0, 1], [2, 1])),
                     ((3, 2), (2,), ([1], [0])), ((2,), (2, 3), ([0], [0])),
                     ((2, 2), (2, 2), ([1], [1]))]:
    op('inner%s%s%s' % (sa, sb, axes), lambda a, b, axes=axes: ot.inner(a, b, axes=axes),
       lambda a, b, axes=axes: s_inner(a, b, axes), sa, sb)
for sa, sb in [((2,), (3,)), ((3,), (1,)), ((1,), (2,)), ((2, 3), (2,)), ((2,), (2, 3)),
               ((2, 2), (3, 1)), ((1, 2, 2), (2,)), ((2,), (2,)), ((2, 2), (2, 2))]:
    op('outer%s%s' % (sa, sb), lambda a, b: ot.outer(a, b), s_outer, sa, sb)

BOUNDS = dict(BOUNDS, shapes='the %d operand shape pairs listed as case ids' % len(OPS),
              operands=', '.join(MODES) + ', one expression used twice')


def cases(tier):
    out = []
    for name, build, spec, sa, sb in OPS:
        out.append(op_case(name, build, {'a': sa, 'b': sb}, spec))
        ms = [('expr', 'indep'), ('named', 'expr'), ('late', 'input'), ('elem', 'late'),
              ('indep', 'elem')]
        if tier == 'thorough':
            ms = [(m, n) for m in MODES for n in MODES if (m, n) != ('input', 'input')]
        for m, n in ms:
            out.append(op_case('%s %s-%s' % (name, m, n), build, {'a': sa, 'b': sb}, spec,
                               modes={'a': m, 'b': n}))
        if sa == sb:
            for m in MODES:
                out.append(op_case('%s same %s' % (name, m), lambda a, b=build: b(a, a),
                                   {'a': sa}, lambda a, sp=spec: sp(a, a), mode=m))
    # the result as an operand
    out.append(op_case('matvec of matmat', lambda a, b, c: ot.matvec(ot.matmat(a, b), c),
                       {'a': (2, 3), 'b': (3, 2), 'c': (2,)},
                       lambda a, b, c: s_matvec(s_matmat(a, b), c)))
    out.append(op_case('matmat of matvec', lambda a, b, c: ot.matmat(a, ot.matvec(b, c)),
                       {'a': (2, 3), 'b': (3, 2), 'c': (2,)},
                       lambda a, b, c: s_matvec(a, s_matvec(b, c))))
    out.append(op_case('dot of cross', lambda a, b, c: ot.dot(a, ot.cross(b, c, axis=0)),
                       {'a': (3,), 'b': (3,), 'c': (3,)},
                       lambda a, b, c: s_vdot(a, s_cross(b, c, 0))))
    out.append(op_case('outer of outer', lambda a, b: ot.outer(ot.outer(a, b), a),
                       {'a': (2,), 'b': (2,)}, lambda a, b: s_outer(s_outer(a, b), a)))
    out.append(op_case('inner of matmat', lambda a, b: ot.inner(ot.matmat(a, b), a, axes=([1], [0])),
                       {'a': (2, 3), 'b': (3, 2)},
                       lambda a, b: s_inner(s_matmat(a, b), a, ([1], [0]))))
    return out
