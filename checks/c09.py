"""Rotation matrices."""
from checks.common import *

PROP = 'C09'
TITLE = 'rotation matrices'
ASSUMPTIONS = ASSUME + ['sin(t)**2 + cos(t)**2 == 1, sin odd, cos even']
SHAPES = [(1,), (2,), (3,), (2, 3), (1, 2), (3, 1), (2, 1, 2), (1, 1)]
BOUNDS = dict(BOUNDS, shapes=str(SHAPES), axes='x, y, z', operands=', '.join(MODES),
              goals='every matrix is orthogonal with determinant 1, fixes its axis, and turns the '
                    'next axis towards the one after it')


def s_rot(t, axis):
    t = raw(t)
    k = 'xyz'.index(axis)
    a, b = (k + 1) % 3, (k + 2) % 3
    o = obj((3, 3) if t.shape == (1,) else t.shape + (3, 3))
    for i in np.ndindex(*t.shape):
        m = np.array([[E.ZERO] * 3] * 3, dtype=object)
        m[k, k] = E.ONE
        c, s = t[i].cos(), t[i].sin()
        m[a, a], m[b, b] = c, c
        m[b, a], m[a, b] = s, -s
        for r in range(3):
            for q in range(3):
                o[(() if t.shape == (1,) else i) + (r, q)] = m[r, q]
    return arr(o)


def rotation_goals(axis):
    k = 'xyz'.index(axis)

    def goals(x, h, sp):
        y = raw(h['vals']['y']).reshape(-1, 3, 3)
        out = []
        for m in y:
            for r in range(3):
                for c in range(r, 3):
                    dot = ssum([m[r, j] * m[c, j] for j in range(3)])
                    out.append(E.eq(dot, E.ONE if r == c else E.ZERO))
            det = ssum([m[0, i] * (m[1, (i + 1) % 3] * m[2, (i + 2) % 3] -
                                   m[1, (i + 2) % 3] * m[2, (i + 1) % 3]) for i in range(3)])
            out.append(E.eq(det, E.ONE))
            for r in range(3):
                out.append(E.eq(m[r, k], E.ONE if r == k else E.ZERO))
        return out
    return goals


def cases(tier):
    out = []
    for axis in 'xyz':
        for s in SHAPES:
            c = op_case('rotation about %s %s' % (axis, s), lambda t, axis=axis: ot.rotmat(t, axis),
                        {'t': s}, lambda t, axis=axis: s_rot(t, axis))
            c.goals = rotation_goals(axis)
            out.append(c)
        for m in MODES[1:]:
            for s in ((1,), (2,)):
                out.append(op_case('rotation about %s %s %s' % (axis, s, m),
                                   lambda t, axis=axis: ot.rotmat(t, axis), {'t': s},
                                   lambda t, axis=axis: s_rot(t, axis), mode=m))
        # composed with a vector
        out.append(op_case('turn a vector about %s' % axis,
                           lambda t, v, axis=axis: ot.matvec(ot.rotmat(t, axis), v),
                           {'t': (1,), 'v': (3,)},
                           lambda t, v, axis=axis: arr(np.array(
                               [ssum([raw(s_rot(t, axis))[r, c] * raw(v)[c] for c in range(3)])
                                for r in range(3)], dtype=object))))
    out.append(op_case('three turns',
                       lambda a, b, c: ot.matmat(ot.matmat(ot.rotmat(a, 'x'), ot.rotmat(b, 'y')),
                                                 ot.rotmat(c, 'z')),
                       {'a': (1,), 'b': (1,), 'c': (1,)},
                       lambda a, b, c: mm(mm(s_rot(a, 'x'), s_rot(b, 'y')), s_rot(c, 'z'))))
    return out


def mm(a, b):
    a, b = raw(a), raw(b)
    o = obj((3, 3))
    for i in np.ndindex(3, 3):
        o[i] = ssum([a[i[0], k] * b[k, i[1]] for k in range(3)])
    return arr(o)
