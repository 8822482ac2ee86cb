"""Execution order."""
from checks.common import *
from symot.graphs import GraphCase, xvar

PROP = 'C12'
TITLE = 'execution order'
ASSUMPTIONS = ASSUME + [
    'the iteration order of a set of expressions is any total order (the order of symbolic ranks); '
    'other iteration orders of Python are as defined by the language']
OUTSIDE = ('graphs with more nodes than stated; in the larger families, orders that move more '
           'than the stated number of expressions relative to creation order')
BOUNDS = {
    'general graphs': 'every acyclic graph over 3 (all orders) and 4 operations, symbolic edges, '
                      'every subset registered, every order of set iteration, registered in order '
                      'and in reverse, both branch sorting modes; 5 operations in the thorough '
                      'tier',
    'larger families': 'fan-in and fan-out to 8 (12 in the thorough tier), chains, ladders, complete graphs, trees, two-state '
                       'recurrences of 8 steps, independent variables, index reads and '
                       'assignments: every order of up to 3 freely moving expressions over '
                       'creation order and its reverse'}


def dag(n, when='after', backwards=False, indep=False, shared=True):
    def build(g, ch):
        x = g.create_indep_var('x', val=1.) if indep else g.declare_input('x', val=1.)
        us, es, spec, reg = [], [], {}, []
        for i in range(n):
            ds = [j for j in range(i) if ch('e%d_%d' % (i, j))]
            if ds:
                u = ot.sum(*[us[j] for j in ds])
                e = ssum([es[j] for j in ds])
            else:
                u = x + (i + 1)
                e = xvar('x') + (i + 1)
            us.append(u)
            es.append(e)
            if ch('r%d' % i):
                spec['u%d' % i] = [e]
                if when == 'once':
                    g.register_output('u%d' % i, u)
                else:
                    reg.append((i, u))
        for i, u in (reversed(reg) if backwards else reg):
            g.register_output('u%d' % i, u)
        return spec
    return build


def fixed(n, edges, regs, kind='sum', indeps=1):
    """a fixed graph: edges[i] = operands of i"""
    def build(g, ch):
        xs = [g.create_indep_var('x%d' % k, val=1.) if k % 2 else
              g.declare_input('x%d' % k, val=1.) for k in range(indeps)]
        us, es, spec = [], [], {}
        for i in range(n):
            ds = edges[i]
            if ds:
                u = ot.sum(*[us[j] for j in ds]) if len(ds) != 2 else \
                    us[ds[0]] + 2 * us[ds[1]] if kind == 'mixed' else us[ds[0]] + us[ds[1]]
                e = ssum([es[j] for j in ds]) if not (kind == 'mixed' and len(ds) == 2) else \
                    es[ds[0]] + 2 * es[ds[1]]
            else:
                u = xs[i % indeps] * (i + 2)
                e = xvar('x%d' % (i % indeps)) * (i + 2)
            us.append(u)
            es.append(e)
        for i in regs:
            g.register_output('u%d' % i, us[i])
            spec['u%d' % i] = [es[i]]
        return spec
    return build


def families(tier):
    out = {}
    for k in (6, 8) if tier == 'quick' else (6, 9, 12):
        # k leaves into one
        out['fan-in %d' % k] = fixed(k + 1, [[]] * k + [list(range(k))], [k])
        # leaves and their running sums into one: many indirect dependencies
        e = [[] for _ in range(k // 2)]
        h = k // 2
        for i in range(h):
            e.append([i] if i == 0 else [i, h + i - 1])
        e.append(list(range(2 * h)))
        out['fan-in of sums %d' % k] = fixed(2 * h + 1, e, [2 * h])
        # one into k, then collected
        out['diamond %d' % k] = fixed(k + 2, [[]] + [[0]] * k + [list(range(1, k + 1)) + [0]],
                                      [k + 1])
    n = 7
    out['complete %d' % n] = fixed(n, [list(range(i)) for i in range(n)], [n - 1])
    out['complete %d all registered' % n] = fixed(n, [list(range(i)) for i in range(n)], range(n))
    out['chain 12'] = fixed(12, [[]] + [[i] for i in range(11)], [11])
    out['chain 8 all registered'] = fixed(8, [[]] + [[i] for i in range(7)], range(8))
    out['skips 10'] = fixed(10, [[], [0]] + [[i - 1, i - 2] for i in range(2, 10)], [9], 'mixed')
    out['skips of three'] = fixed(10, [[], [0], [0, 1]] + [[i - 1, i - 2, i - 3]
                                                          for i in range(3, 10)], [9, 4])
    # two-state recurrence
    e = [[], []]
    for i in range(1, 7):
        e += [[2 * i - 2, 2 * i - 1], [2 * i - 2, 2 * i - 1]]
    out['two states'] = fixed(14, e, [12, 13], 'mixed')
    e = [[], [], []]
    for i in range(1, 4):
        e += [[3 * i - 3, 3 * i - 2, 3 * i - 1]] * 3
    out['three states'] = fixed(12, e, [9, 10, 11])
    # binary tree
    e = [[] for _ in range(8)] + [[0, 1], [2, 3], [4, 5], [6, 7], [8, 9], [10, 11], [12, 13]]
    out['tree'] = fixed(15, e, [14], 'mixed')
    out['tree, every level registered'] = fixed(15, e, [8, 10, 12, 14], 'mixed')
    # tree that also uses its leaves again at the top
    out['tree and leaves'] = fixed(15, e[:14] + [[12, 13, 0, 3, 9]], [14])
    # long and short branches
    out['branches'] = fixed(11, [[], [0], [1], [2], [3], [0], [5], [0], [4, 6], [8, 7], [9, 0]],
                            [10, 6], 'mixed')
    out['two outputs over shared parts'] = fixed(
        9, [[], [], [0, 1], [0], [2, 3], [2, 1], [4, 5], [3, 5], [4, 7]], [6, 8], 'mixed')
    out['late short branch'] = fixed(8, [[], [], [0, 1], [2, 0], [3, 1], [4, 2], [5, 0], [6, 1]],
                                     [7, 3], 'mixed')
    return out


def many_inputs(g, ch):
    xs = [(g.create_indep_var if k % 2 else g.declare_input)('x%d' % k, val=1.) for k in range(6)]
    e = [xvar('x%d' % k) for k in range(6)]
    a = xs[0] * xs[1] + xs[2]
    b = a * xs[3] + xs[4] * xs[0]
    y = b * a + xs[5] * b
    g.register_output('y', y)
    ea = e[0] * e[1] + e[2]
    eb = ea * e[3] + e[4] * e[0]
    return {'y': [eb * ea + e[5] * eb]}


def indep_only(g, ch):
    p = g.create_indep_var('p', val=2.)
    q = g.create_indep_var('q', val=3.)
    x = g.declare_input('x', val=1.)
    g.register_output('y', x * 2)
    z = p * x
    g.register_output('z', z + p)
    return {'y': [xvar('x') * 2], 'z': [xvar('p') * xvar('x') + xvar('p')],
            'p': [xvar('p')], 'q': [xvar('q')]}


def indep_late(g, ch):
    x = g.declare_input('x', val=1.)
    y = x * 2
    p = g.create_indep_var('p', val=2.)
    g.register_output('y', y)
    q = g.create_indep_var('q', val=2.)
    g.register_output('z', y * p + q)
    return {'y': [xvar('x') * 2], 'z': [xvar('x') * 2 * xvar('p') + xvar('q')],
            'p': [xvar('p')], 'q': [xvar('q')]}


def indices(g, ch):
    x = g.declare_input('x', shape=(3,), val=np.ones(3))
    e = [xvar('x', i) for i in range(3)]
    u = x * x
    a, b, c = u[0], u[1:3], x[2]
    y = g.create_output('y', shape=(4,))
    y[1:3] = b
    y[0] = a + c
    y[3] = c
    if ch('register u'):
        g.register_output('u', u)
    z = y[1] * y[3] + a
    g.register_output('z', z)
    s = {'y': [e[0] ** 2 + e[2], e[1] ** 2, e[2] ** 2, e[2]], 'z': [e[1] ** 2 * e[2] + e[0] ** 2]}
    if ch('register u'):
        s['u'] = [v ** 2 for v in e]
    return s


def assembled_chain(g, ch):
    x = g.declare_input('x', val=1.)
    e = xvar('x')
    y = g.create_output('y', shape=(2,))
    w = g.create_output('w', shape=(3,))
    a = x + 1
    w[0] = y[1]
    w[1] = y[0] * a
    w[2] = a
    y[0] = a * 2
    y[1] = x * 3
    if ch('late'):
        g.register_output('a', a)
        return {'y': [(e + 1) * 2, e * 3], 'w': [e * 3, (e + 1) * 2 * (e + 1), e + 1],
                'a': [e + 1]}
    return {'y': [(e + 1) * 2, e * 3], 'w': [e * 3, (e + 1) * 2 * (e + 1), e + 1]}


def unused(g, ch):
    x = g.declare_input('x', val=1.)
    w = g.declare_input('w', val=1.)
    e = xvar('x')
    a = x * 2
    b = a + x
    c = ot.sin(b) * w
    d = c + a
    d2 = d * w
    spec = {}
    for n, v, s in (('a', a, e * 2), ('b', b, e * 3)):
        if ch('register ' + n):
            g.register_output(n, v)
            spec[n] = [s]
    g.register_output('y', b * b)
    spec['y'] = [9 * e * e]
    return spec


def repeated(g, ch):
    x = g.declare_input('x', val=1.)
    e = xvar('x')
    a = x * x
    b = a * a + a
    c = b - b * a
    g.register_output('y', c + c)
    g.register_output('b', b)
    eb = e ** 4 + e ** 2
    return {'y': [2 * (eb - eb * e ** 2)], 'b': [eb]}


PROGRAMS = {'many inputs': many_inputs, 'independent variables': indep_only,
            'independent variables late': indep_late, 'index reads and assignment': indices,
            'assembled before its parts': assembled_chain, 'unused expressions': unused,
            'repeated operands': repeated}


def cases(tier):
    out = []
    every = lambda i: True
    for n in (1, 2, 3):
        for rev in (False, True):
            for bk in (False, True):
                out.append(GraphCase('graphs of %d%s%s' % (n, ' low first' if rev else '',
                                                           ' registered backwards' if bk else ''),
                                     dag(n, backwards=bk), every, reverse=rev))
            out.append(GraphCase('graphs of %d%s registered at once' % (
                n, ' low first' if rev else ''), dag(n, 'once'), every, reverse=rev))
            out.append(GraphCase('graphs of %d%s independent' % (
                n, ' low first' if rev else ''), dag(n, indep=True), every, reverse=rev))
    n = 4 if tier == 'quick' else 5
    nsplit = 5 if n == 4 else 9
    keys = ['e%d_%d' % (i, j) for i in range(n) for j in range(i)]
    # the last operation is registered: it is unused otherwise, and the graph smaller
    for rev in (False, True):
        for bits in itertools.product((0, 1), repeat=nsplit):
            def b(g, ch, bits=bits, n=n):
                part = dict(zip(keys[-nsplit:], bits))
                part['r%d' % (n - 1)] = 1
                return dag(n)(g, lambda k: bool(part[k]) if k in part else ch(k))
            out.append(GraphCase('graphs of %d%s part %s' % (
                n, ' low first' if rev else '', ''.join(map(str, bits))), b, every, reverse=rev))
    for nm, b in families(tier).items():
        for rev in (False, True):
            for base in (1, -1):
                for free in ((2, 5, 8), (1, 3, 4)) if tier == 'quick' else \
                        ((2, 5, 8), (1, 3, 4), (0, 6, 7), (2, 3, 9), (5, 6, 10), (4, 8, 11)):
                    out.append(GraphCase('%s%s base %d free %s' % (
                        nm, ' low first' if rev else '', base, free), b,
                        lambda i, free=free: i in free, base=base, reverse=rev, max_paths=6000))
    for nm, b in PROGRAMS.items():
        for rev in (False, True):
            for base in (1, -1):
                for free in ((1, 2, 3, 4), (3, 5, 6), (0, 7, 9)):
                    if len(free) == 4 and b is many_inputs:
                        free = (1, 2, 4)
                    out.append(GraphCase('%s%s base %d free %s' % (
                        nm, ' low first' if rev else '', base, free), b,
                        lambda i, free=free: i in free, base=base, reverse=rev, max_paths=6000))
    return out
