"""Assembling an output by assignment to elements and slices."""
from checks.common import *
from checks.c10 import show, norm_key, keys1

PROP = 'C11'
TITLE = 'assignment by index'
ASSUMPTIONS = ASSUME
BOUNDS = dict(BOUNDS, one_axis='every int and non-empty slice of sizes 1..4 with start in [0, n), '
                               'stop in [-n, n], step in {none, 1, 2, 3, -1, -2}, the remaining '
                               'elements assigned one by one, in either order',
              partitions='every partition of 1..4 elements into contiguous pieces, all orders of '
                         'assignment up to 3 pieces; blocks of shapes (2,3), (3,2), (2,2,2), '
                         '(3,4) by rows, columns, quadrants, elements',
              pieces='inputs, independent variables, expressions, expressions registered before '
                     'or after, reads of other variables; operands ' + ', '.join(MODES))


def positions(shape, key):
    """flat positions, in the order of the entries of the piece, and the shape of the piece"""
    idx = np.arange(int(np.prod(shape))).reshape(shape)[norm_key(key)]
    return idx.shape, idx.flatten()


def assemble(id, shape, keys, modes='input', order=None, after=None, **kw):
    """y[k_i] = piece_i; the piece made from input p_i"""
    if isinstance(modes, str):
        modes = [modes] * len(keys)
    pos = [positions(shape, k) for k in keys]
    names = ['p%d' % i for i in range(len(keys))]
    order = order or range(len(keys))

    def fn(g):
        late = []
        vs = [operand(g, n, s, m, late) for n, (s, _), m in zip(names, pos, modes)]
        y = g.create_output('y', shape=shape)
        for i in order:
            y[keys[i]] = vs[i]
        g.register_output('z', 3 * y + 1)
        for n, u in late:
            g.register_output(n, u)

    def spec(ins):
        o = obj(shape)
        flat = o.reshape(-1)
        for n, (s, p), m in zip(names, pos, modes):
            v = ins[n] if m in ('input', 'indep') else 2 * A.symarray(ins[n]) + 1
            for j, e in zip(p, els(v)):
                flat[j] = e
        y = arr(o)
        return {'y': y, 'z': 3 * y + 1}
    return Case(id, group(fn), {n: s for n, (s, _) in zip(names, pos)}, ['y', 'z'], spec, **kw)


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def cases(tier):
    out = []
    # one key, the rest element by element
    for n in (1, 2, 3, 4):
        for k in keys1(n):
            s, p = positions((n,), k)
            rest = [i for i in range(n) if i not in p]
            ks = [k] + rest
            out.append(assemble('y%s of %d' % (show(k), n), (n,), ks))
            if rest:
                out.append(assemble('y%s of %d, others first' % (show(k), n), (n,), ks,
                                    order=list(reversed(range(len(ks))))))
    # partitions
    for n in (2, 3, 4):
        for c in compositions(n):
            b = np.cumsum((0,) + c)
            ks = [slice(int(b[i]), int(b[i + 1])) if c[i] > 1 else int(b[i])
                  for i in range(len(c))]
            perms = itertools.permutations(range(len(c))) if len(c) <= 3 else \
                [tuple(range(len(c))), tuple(reversed(range(len(c))))]
            for o in perms:
                for m in MODES:
                    if m != 'input' and list(o) not in (list(range(len(c))),
                                                        list(reversed(range(len(c))))):
                        continue
                    out.append(assemble('pieces %s in order %s %s' % (c, o, m), (n,), ks, m,
                                        order=o))
    # interleaved pieces
    out.append(assemble('even and odd', (5,), [slice(0, 5, 2), slice(1, 5, 2)]))
    out.append(assemble('odd backwards', (5,), [slice(0, 5, 2), slice(3, 0, -2)]))
    # blocks
    blocks = {
        'rows': ((2, 3), [(0, slice(None)), (1, slice(None))]),
        'columns': ((2, 3), [(slice(None), j) for j in range(3)]),
        'quadrants': ((3, 4), [(slice(0, 1), slice(0, 2)), (slice(0, 1), slice(2, 4)),
                               (slice(1, 3), slice(0, 2)), (slice(1, 3), slice(2, 4))]),
        'elements': ((3, 2), [(i, j) for i in range(3) for j in range(2)]),
        'row and corner': ((2, 2), [(0, slice(None)), (1, 0), (1, slice(1, 2))]),
        'strided rows': ((3, 2), [(slice(0, 3, 2), slice(None)), (1, slice(None))]),
        'strided columns': ((2, 4), [(slice(None), slice(0, 4, 2)), (slice(None), slice(1, 4, 2))]),
        'backward rows': ((3, 2), [(slice(2, 0, -1), slice(None)), (0, slice(None))]),
        'negative stop': ((3, 3), [(slice(0, -1), slice(None)), (2, slice(0, -1)), (2, 2)]),
        'whole': ((2, 3), [(slice(None), slice(None))]),
        'planes': ((2, 2, 2), [(0, slice(None), slice(None)), (1, slice(None), slice(None))]),
        'last axis': ((2, 2, 2), [(slice(None), slice(None), 0), (slice(None), slice(None), 1)]),
        'middle axis': ((2, 2, 3), [(slice(None), 0, slice(None)), (slice(None), 1, slice(None))]),
        'cube elements': ((2, 1, 2), [(i, 0, j) for i in range(2) for j in range(2)]),
    }
    for nm, (s, ks) in blocks.items():
        for m in MODES:
            out.append(assemble('%s %s' % (nm, m), s, ks, m))
            out.append(assemble('%s reversed %s' % (nm, m), s, ks, m,
                                order=list(reversed(range(len(ks))))))
    # different kinds of pieces
    for ms in itertools.permutations(MODES, 3):
        out.append(assemble('pieces of kinds %s' % (ms,), (4,), [0, slice(1, 3), 3], list(ms)))

    # the same expression by more than one route
    def reversal(g):
        x = g.declare_input('x', shape=(4,), val=np.arange(4.))
        y = g.create_output('y', shape=(4,))
        for i in range(4):
            y[i] = x[3 - i]
    out.append(Case('reversal by elements', group(reversal), {'x': (4,)}, ['y'],
                    lambda ins: {'y': arr(raw(ins['x'])[::-1].copy())}))

    def transp(g):
        x = g.declare_input('x', shape=(2, 3), val=np.ones((2, 3)))
        y = g.create_output('y', shape=(3, 2))
        for i in range(2):
            for j in range(3):
                y[j, i] = x[i, j]
    out.append(Case('transpose by elements', group(transp), {'x': (2, 3)}, ['y'],
                    lambda ins: {'y': arr(raw(ins['x']).T.copy())}))

    def swap(g):
        x = g.declare_input('x', shape=(2, 4), val=np.ones((2, 4)))
        y = g.create_output('y', shape=(2, 4))
        y[:, 0:2] = x[:, 2:4]
        y[:, 2:4] = x[:, 0:2]
        g.register_output('z', y * x)

    def s_swap(ins):
        x = raw(ins['x'])
        y = np.concatenate([x[:, 2:], x[:, :2]], axis=1)
        return {'y': arr(y), 'z': arr(y * x)}
    out.append(Case('halves swapped', group(swap), {'x': (2, 4)}, ['y', 'z'], s_swap))

    # an assembled output read by index, into another assembled output
    def nested(g):
        a = g.declare_input('a', shape=(2,), val=np.ones(2))
        b = g.declare_input('b', shape=(1,), val=2.)
        y = g.create_output('y', shape=(3,))
        y[0:2] = a * 2
        y[2] = b * b
        w = g.create_output('w', shape=(2,))
        w[0] = y[2] * 3
        w[1] = y[0] + b

    def s_nested(ins):
        a, b = els(ins['a']), els(ins['b'])[0]
        y = [a[0] * 2, a[1] * 2, b * b]
        return {'y': arr(np.array(y, dtype=object)),
                'w': arr(np.array([y[2] * 3, y[0] + b], dtype=object))}
    out.append(Case('assembled from an assembled output', group(nested), {'a': (2,), 'b': (1,)},
                    ['y', 'w'], s_nested))

    # two outputs assembled from the same pieces, at different places
    def two(g):
        a = g.declare_input('a', shape=(2,), val=np.ones(2))
        b = g.declare_input('b', shape=(2,), val=2 * np.ones(2))
        u, v = a * b, a + b
        y = g.create_output('y', shape=(4,))
        z = g.create_output('z', shape=(4,))
        y[0:2] = u
        z[2:4] = u
        y[2:4] = v
        z[0:2] = v
        g.register_output('u', u)

    def s_two(ins):
        a, b = raw(ins['a']), raw(ins['b'])
        return {'y': arr(np.concatenate([a * b, a + b])), 'z': arr(np.concatenate([a + b, a * b])),
                'u': arr(a * b)}
    out.append(Case('two outputs from the same pieces', group(two), {'a': (2,), 'b': (2,)},
                    ['y', 'z', 'u'], s_two))
    return out
