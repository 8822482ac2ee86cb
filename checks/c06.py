"""Reshape, transpose, reorder_axes, expand."""
from checks.common import *

PROP = 'C06'
TITLE = 'rearranging and expanding arrays'
ASSUMPTIONS = ASSUME


def s_reshape(x, new):
    return arr(np.array(list(raw(x).flat), dtype=object).reshape(new))


def s_perm(x, perm):
    x = raw(x)
    o = obj(tuple(x.shape[p] for p in perm))
    for i in np.ndindex(*o.shape):
        j = [0] * x.ndim
        for k, p in enumerate(perm):
            j[p] = i[k]
        o[i] = x[tuple(j)]
    return arr(o)


def s_expand(x, shape, sub=None):
    x = raw(x)
    o = obj(shape)
    if sub is None:
        for i in np.ndindex(*shape):
            o[i] = x[0]
        return arr(o)
    l, r = sub.split('->')
    for i in np.ndindex(*shape):
        o[i] = x[tuple(i[r.index(k)] for k in l)]
    return arr(o)


RESHAPES = [((6,), (2, 3)), ((2, 3), (6,)), ((2, 3), (3, 2)), ((2, 3, 2), (4, 3)), ((4,), (4, 1)),
            ((1, 4), (2, 2)), ((2, 2, 2), (8,)), ((12,), (2, 3, 2)), ((1,), (1, 1)), ((3,), (3,)),
            ((2, 1, 3), (3, 1, 2))]
SHAPES = [(3,), (2, 3), (3, 1), (2, 2), (2, 3, 4), (2, 1, 3), (2, 3, 1, 2)]
EXPANDS = [('i->ij', (2,), (2, 3)), ('i->ji', (2,), (3, 2)), ('i->ijk', (3,), (3, 2, 2)),
           ('i->jik', (3,), (2, 3, 2)), ('i->jki', (3,), (2, 2, 3)), ('ij->ijk', (2, 3), (2, 3, 2)),
           ('ij->ikj', (2, 3), (2, 2, 3)), ('ij->kij', (2, 3), (4, 2, 3)),
           ('ij->kilj', (2, 3), (2, 2, 1, 3)), ('ij->iklj', (2, 2), (2, 3, 2, 2)),
           ('ijk->lijk', (2, 1, 2), (2, 2, 1, 2)), ('i->ij', (2,), (2, 1)), ('i->ij', (3,), (3, 3)),
           ('ij->ijkl', (1, 2), (1, 2, 2, 2))]
BOUNDS = dict(BOUNDS, reshapes=str(RESHAPES), shapes=str(SHAPES),
              permutations='every permutation of the axes', expands=str(EXPANDS),
              operands=', '.join(MODES))


def cases(tier):
    out = []
    modes = MODES

    def add(id, build, inputs, spec, every=True):
        for m in (modes if every else ('input',)):
            out.append(op_case(id + ('' if m == 'input' else ' ' + m), build, inputs, spec, mode=m))

    for a, b in RESHAPES:
        add('reshape%s->%s' % (a, b), lambda x, b=b: ot.reshape(x, b), {'x': a},
            lambda x, b=b: s_reshape(x, b))
    for s in SHAPES:
        n = len(s)
        add('transpose%s' % (s,), lambda x: ot.transpose(x), {'x': s},
            lambda x, n=n: s_perm(x, tuple(range(n))[::-1]))
        for p in itertools.permutations(range(n)):
            l = 'ijkl'[:n]
            r = ''.join(l[k] for k in p)
            op = '%s->%s' % (l, r)
            add('reorder%s %s' % (s, op), lambda x, op=op: ot.reorder_axes(x, op), {'x': s},
                lambda x, p=p: s_perm(x, p), every=tier == 'thorough' or p in ((1, 0), (2, 0, 1)))
    add('reorder with letters', lambda x: ot.reorder_axes(x, 'alx->xal'), {'x': (2, 3, 4)},
        lambda x: s_perm(x, (2, 0, 1)))
    for sub, a, b in EXPANDS:
        add('expand %s %s->%s' % (sub, a, b), lambda x, sub=sub, b=b: ot.expand(x, b, sub),
            {'x': a}, lambda x, sub=sub, b=b: s_expand(x, b, sub))
    for b in ((3,), (2, 3), (2, 1, 2), (1, 1), (2, 2, 2, 2)):
        add('expand scalar %s' % (b,), lambda x, b=b: ot.expand(x, b), {'x': (1,)},
            lambda x, b=b: s_expand(x, b))
    # chains
    add('transpose of reshape of reorder',
        lambda x: ot.transpose(ot.reshape(ot.reorder_axes(x, 'ijk->kij'), (2, 6))), {'x': (2, 3, 2)},
        lambda x: s_perm(s_reshape(s_perm(x, (2, 0, 1)), (2, 6)), (1, 0)))
    add('expand of transpose', lambda x: ot.expand(ot.transpose(x), (3, 2, 2), 'ij->ijk'),
        {'x': (2, 3)}, lambda x: s_expand(s_perm(x, (1, 0)), (3, 2, 2), 'ij->ijk'))
    add('transpose twice', lambda x: ot.transpose(ot.transpose(x)), {'x': (2, 3, 2)},
        lambda x: s_perm(x, (0, 1, 2)))
    add('x times expanded sum', lambda x: x * ot.expand(ot.sum(x), (2, 3)), {'x': (2, 3)},
        lambda x: emap(lambda t: t * ssum(raw(x).flat), x))
    return out
