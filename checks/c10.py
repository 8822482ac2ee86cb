"""Reading elements and slices of a variable."""
from checks.common import *

PROP = 'C10'
TITLE = 'reading by index'
ASSUMPTIONS = ASSUME
SIZES = [1, 2, 3, 4, 5]
BOUNDS = dict(BOUNDS, one_axis='every int and every non-empty slice of sizes %s with start in '
                               '[0, n), stop in [-n, n] and step in {none, 1, 2, 3, -1, -2}' % SIZES,
              more_axes='shapes (2,3), (3,2), (3,4), (1,3), (2,3,4), (2,1,3); products of a '
                        'selection of ints and slices per axis',
              programs='several reads of one variable, the same read twice, reads of reads, reads '
                       'inside expressions, registered reads, reads before and after registration',
              operands=', '.join(MODES))


def norm_key(key):
    """an int selects a slice of length one"""
    k = key if isinstance(key, tuple) else (key,)
    return tuple(slice(i, i + 1) if isinstance(i, int) else i for i in k)


def read(x, key):
    return arr(raw(x)[norm_key(key)].copy())


def show(key):
    if isinstance(key, tuple):
        return '[' + ','.join(show(k)[1:-1] for k in key) + ']'
    if isinstance(key, int):
        return '[%d]' % key
    f = lambda v: '' if v is None else str(v)
    return '[%s:%s%s]' % (f(key.start), f(key.stop), '' if key.step is None else ':%d' % key.step)


def keys1(n):
    out = list(range(n))
    starts = [None] + list(range(n))
    stops = [None] + list(range(-n, 0)) + list(range(0, n + 1))
    for a in starts:
        for b in stops:
            for st in (None, 1, 2, 3, -1, -2):
                if st is not None and st < 0 and (a is None or b is None):
                    continue       # rejected: the defaults are those of a positive step
                k = slice(a, b, st)
                if len(range(*k.indices(n))):
                    out.append(k)
    return out


def few(n):
    out = [0, slice(None)] + ([n - 1] if n > 1 else [])
    if n > 1:
        out += [slice(1, None), slice(0, -1), slice(n - 1, 0, -1)]
    if n > 2:
        out += [slice(0, n, 2), slice(1, 2)]
    return out


def reads(id, s, keys, mode='input', combine=None, **kw):
    """outputs y0.. = x[k0], x[k1], ..., each times its position, plus one"""
    names = ['y%d' % i for i in range(len(keys))]

    def fn(g):
        late = []
        x = operand(g, 'x', s, mode, late)
        for i, k in enumerate(keys):
            g.register_output(names[i], x[k] * (i + 2) + 1)
        for n, u in late:
            g.register_output(n, u)

    def val(v):
        return v if mode in ('input', 'indep') else 2 * A.symarray(v) + 1
    return Case(id, group(fn), {'x': s}, names,
                lambda ins: {names[i]: read(val(ins['x']), k) * (i + 2) + 1
                             for i, k in enumerate(keys)}, **kw)


def prog(id, inputs, outputs, fn, spec, **kw):
    return Case(id, group(fn), inputs, outputs, spec, **kw)


def cases(tier):
    out = []
    for n in SIZES:
        for k in keys1(n):
            out.append(op_case('x%s of %d' % (show(k), n), lambda x, k=k: x[k], {'x': (n,)},
                               lambda x, k=k: read(x, k)))
    for s in [(2, 3), (3, 2), (3, 4), (1, 3), (2, 1, 3), (2, 3, 4)]:
        for k in itertools.product(*[few(n) if len(s) == 2 or tier == 'thorough' else few(n)[:6]
                                     for n in s]):
            out.append(op_case('x%s of %s' % (show(k), s), lambda x, k=k: x[k], {'x': s},
                               lambda x, k=k: read(x, k)))
    for m in MODES:
        ks = [0, slice(1, 3), 3, slice(0, 4, 2), slice(None), slice(3, 0, -1)]
        for a, b in itertools.combinations(ks, 2):
            out.append(reads('reads %s %s %s' % (show(a), show(b), m), (4,), [a, b], m))
        out.append(reads('reads of one %s' % m, (4,), ks, m))
        # reads of as many entries, in any order
        for size in (1, 2, 3, 4):
            same = {}
            for k in keys1(4):
                if not isinstance(k, int) or size == 1:
                    t = tuple(np.arange(4)[norm_key(k)])
                    if len(t) == size:
                        same.setdefault(t, k)
            same = list(same.values())
            for a, b in itertools.combinations(same, 2):
                if m == 'input' or size == 3:
                    out.append(reads('as many %s %s %s' % (show(a), show(b), m), (4,), [a, b], m))
        a = slice(None)
        d = [slice(0, 2), slice(1, 3), slice(2, 0, -1), a]
        same = [(i, j) for i in (0, 1, a) for j in [1, 2] + d]
        for x, y in itertools.combinations(same, 2):
            if m == 'input':
                out.append(reads('as many %s %s of rank 2' % (show(x), show(y)), (2, 3), [x, y], m))
        out.append(reads('one read twice %s' % m, (4,), [1, 1, slice(1, 2), slice(0, 2),
                                                         slice(0, 2)], m))
        k2 = [(0, slice(None)), (slice(None), 1), (slice(0, 2), slice(1, 3)), (1, 2),
              (slice(None, None, 2), slice(None))]
        out.append(reads('reads of rank 2 %s' % m, (3, 3), k2, m))
        for k in k2:
            out.append(reads('read %s of rank 2 %s' % (show(k), m), (3, 3), [k], m))
        out.append(reads('reads of rank 3 %s' % m, (2, 2, 3), [
            (0, 1, 2), (1, slice(None), 0), (slice(None), slice(None), slice(0, 2))], m))

    # every element, all registered directly
    def every(g):
        x = g.declare_input('x', shape=(4,), val=np.arange(4.))
        for i in range(4):
            g.register_output('y%d' % i, x[i])
    out.append(prog('every element registered', {'x': (4,)}, ['y%d' % i for i in range(4)], every,
                    lambda ins: {'y%d' % i: read(ins['x'], i) for i in range(4)}))

    # elements used with each other: a product of neighbours
    def chain(g):
        x = g.declare_input('x', shape=(4,), val=np.arange(4.))
        y = x[0]
        for i in range(1, 4):
            y = y * x[i] + x[i - 1]
        g.register_output('y', y)

    def s_chain(ins):
        v = els(ins['x'])
        y = v[0]
        for i in range(1, 4):
            y = y * v[i] + v[i - 1]
        o = obj((1,))
        o[0] = y
        return {'y': arr(o)}
    out.append(prog('recurrence over elements', {'x': (4,)}, ['y'], chain, s_chain))

    # reads of reads
    for k1, k2 in [(slice(1, 5), slice(1, 3)), (slice(0, 5, 2), 1), (slice(4, 0, -1), slice(0, 3)),
                   (slice(1, 4), slice(2, 0, -1))]:
        out.append(op_case('x%s%s' % (show(k1), show(k2)), lambda x, k1=k1, k2=k2: x[k1][k2],
                           {'x': (5,)}, lambda x, k1=k1, k2=k2: read(read(x, k1), k2)))
        for m in ('expr', 'late', 'elem'):
            out.append(op_case('x%s%s %s' % (show(k1), show(k2), m),
                               lambda x, k1=k1, k2=k2: x[k1][k2] * 3,
                               {'x': (5,)}, lambda x, k1=k1, k2=k2: read(read(x, k1), k2) * 3,
                               mode=m))
    out.append(op_case('x[0:2,1:3][1,0:1]', lambda x: x[0:2, 1:3][1, 0:1], {'x': (3, 4)},
                       lambda x: read(read(x, (slice(0, 2), slice(1, 3))), (1, slice(0, 1)))))

    # results of other operations, read afterwards
    out.append(op_case('element of a product', lambda a, b: (a * b)[1] + (a + b)[0:1],
                       {'a': (3,), 'b': (3,)},
                       lambda a, b: read(a * b, 1) + read(a + b, slice(0, 1))))
    out.append(op_case('slice of a matrix product', lambda a, b: ot.matmat(a, b)[0, :],
                       {'a': (2, 3), 'b': (3, 2)},
                       lambda a, b: arr(np.array([[ssum([raw(a)[0, k] * raw(b)[k, j]
                                                         for k in range(3)]) for j in range(2)]],
                                                 dtype=object))))
    out.append(op_case('slice of a transpose', lambda a: ot.transpose(a)[1:3, 0], {'a': (2, 3)},
                       lambda a: arr(np.array([[raw(a)[0, 1]], [raw(a)[0, 2]]], dtype=object))))
    out.append(op_case('slices recombined by outer and sum',
                       lambda x: ot.sum(ot.outer(x[0:2], x[2:4]), axes=(0,)), {'x': (4,)},
                       lambda x: arr(np.array([(raw(x)[0] + raw(x)[1]) * raw(x)[2 + j]
                                               for j in range(2)], dtype=object))))

    # unused reads do not disturb the others
    def unused(g):
        x = g.declare_input('x', shape=(3,), val=np.arange(3.))
        x[0]
        z = x[1] * 2
        g.register_output('y', x[2] + 1)
        w = x * 3
        w[0]
    out.append(prog('unused reads', {'x': (3,)}, ['y'], unused,
                    lambda ins: {'y': read(ins['x'], 2) + 1}))

    # read first, registered between two reads
    def between(g):
        x = g.declare_input('x', shape=(3,), val=np.arange(3.))
        u = x * x
        a = u[0]
        g.register_output('u', u)
        b = u[1:3]
        g.register_output('y', a * 2)
        g.register_output('z', b * 3)

    def s_between(ins):
        u = emap(lambda e: e * e, ins['x'])
        return {'u': u, 'y': read(u, 0) * 2, 'z': read(u, slice(1, 3)) * 3}
    out.append(prog('registered between reads', {'x': (3,)}, ['u', 'y', 'z'], between, s_between))

    # a read of an element, itself registered and used again
    def named_read(g):
        x = g.declare_input('x', shape=(3,), val=np.arange(3.))
        a = g.register_output('a', x[1:3])
        g.register_output('y', a[1] * x[0])
    out.append(prog('registered read, read again', {'x': (3,)}, ['a', 'y'], named_read,
                    lambda ins: {'a': read(ins['x'], slice(1, 3)),
                                 'y': read(ins['x'], 2) * read(ins['x'], 0)}))
    return out
