"""Programs drawn from the expression language, as data.

A program is a list of statements.  It is written into a Group through the public API, and its
meaning is computed by plain loops over symbolic arrays; both come from the same table.
"""
from fractions import Fraction

import numpy as np

from . import expr as E
from . import arr as A
import omtools.api as ot


def _map(f, *arrs):
    arrs = [A.symarray(a).view(np.ndarray) for a in arrs]
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*arrs[0].shape):
        out[i] = f(*[a[i] for a in arrs])
    return out.view(A.SymArray)


def _sum(xs):
    r = E.ZERO
    for x in xs:
        r = E.add(r, E.lift(x))
    return r


def _wrap(o):
    return np.asarray(o, dtype=object).view(A.SymArray)


def _full(v):
    o = np.empty((1,), dtype=object)
    o[0] = v
    return o.view(A.SymArray)


def s_sumall(*xs):
    r = E.ZERO
    for x in xs:
        for e in A.lift_arr(x).flat:
            r = E.add(r, e)
    return _full(r)


def s_sumaxis(ax):
    def f(x):
        x = A.lift_arr(x)
        x = np.moveaxis(x, ax, -1)
        o = np.empty(x.shape[:-1], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = _sum(x[i])
        return o.view(A.SymArray)
    return f


def s_avgaxis(ax):
    def f(x):
        n = x.shape[ax]
        return _map(lambda e: E.div(e, E.const(n)), s_sumaxis(ax)(x))
    return f


def s_matmat(a, b):
    a, b = A.lift_arr(a), A.lift_arr(b)
    o = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            o[i, j] = _sum(E.mul(a[i, k], b[k, j]) for k in range(a.shape[1]))
    return o.view(A.SymArray)


def s_matvec(a, b):
    a, b = A.lift_arr(a), A.lift_arr(b)
    o = np.empty((a.shape[0],), dtype=object)
    for i in range(o.shape[0]):
        o[i] = _sum(E.mul(a[i, k], b[k]) for k in range(a.shape[1]))
    return o.view(A.SymArray)


def s_outer(a, b):
    a, b = A.lift_arr(a), A.lift_arr(b)
    o = np.empty(a.shape + b.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        for j in np.ndindex(*b.shape):
            o[i + j] = E.mul(a[i], b[j])
    return o.view(A.SymArray)


def s_inner(a, b):
    return _full(_sum(E.mul(x, y) for x, y in zip(A.lift_arr(a).flat, A.lift_arr(b).flat)))


def s_cross(a, b):
    a, b = A.lift_arr(a), A.lift_arr(b)
    o = np.empty((3,), dtype=object)
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        o[i] = E.sub(E.mul(a[j], b[k]), E.mul(a[k], b[j]))
    return o.view(A.SymArray)


def s_expand(shape):
    return lambda x: _map(lambda _: A.lift_arr(x).flat[0], np.zeros(shape))


C23 = np.array([[2., -1., .5], [3., 1., -2.]])
C3 = np.array([2., -1., .5])


def _c(shape):
    return {(3,): C3, (2, 3): C23}.get(shape)


def _root(e):
    return e ** Fraction(1, 2)


def s_turn(t):
    t = A.lift_arr(t)
    o = np.empty((3, 3) if t.shape == (1,) else t.shape + (3, 3), dtype=object)
    for i in np.ndindex(*t.shape):
        c, s = t[i].cos(), t[i].sin()
        m = [[c, -s, E.ZERO], [s, c, E.ZERO], [E.ZERO, E.ZERO, E.ONE]]
        for r in range(3):
            for q in range(3):
                o[(() if t.shape == (1,) else i) + (r, q)] = m[r][q]
    return o.view(A.SymArray)


def s_softmax(sign, rho):
    def f(*xs):
        ts = [E.mul(E.const(sign * rho), x).exp() for x in xs]
        return E.div(_sum(ts).log(), E.const(sign * rho))
    return f


def s_rows_root(x):
    x = A.lift_arr(x)
    o = np.empty((x.shape[0],), dtype=object)
    for i in range(x.shape[0]):
        o[i] = _root(_sum((e * e + 1) ** 2 for e in x[i]))
    return o.view(A.SymArray)


def s_concat(a, b):
    return _wrap(np.concatenate([A.lift_arr(b).reshape(-1), A.lift_arr(a).reshape(-1)]))


def s_stack(a, b):
    return _wrap(np.array([list(A.lift_arr(a).flat), list(A.lift_arr(b).flat)], dtype=object))


# name -> (number of operands, can apply to these shapes?, shape of the result is implied by spec,
#          build, spec)
def un(f_ot, f_sp, ok=lambda s: True):
    return (1, ok, f_ot, lambda x: _map(f_sp, x))


OPS = {
    'sin': un(ot.sin, lambda t: t.sin()), 'cos': un(ot.cos, lambda t: t.cos()), 'tanh': un(ot.tanh, lambda t: (t.exp() - 1 / t.exp()) / (t.exp() + 1 / t.exp())),
    'exp': un(ot.exp, lambda t: t.exp()),
    'log': un(lambda x: ot.log(x * x + 1), lambda t: (t * t + 1).log()),
    'root': un(lambda x: (x * x + 1) ** 0.5, lambda t: _root(t * t + 1)),
    'arctan': un(ot.arctan, lambda t: t.arctan()),
    'square': un(lambda x: x ** 2, lambda x: E.mul(x, x)),
    'cube': un(lambda x: x ** 3, lambda x: E.mul(x, E.mul(x, x))),
    'neg': un(lambda x: -x, lambda x: -x),
    'double': un(lambda x: 2 * x, lambda x: E.mul(E.const(2), x)),
    'half': un(lambda x: x / 2, lambda x: E.div(x, E.const(2))),
    'shift': un(lambda x: x + 1.5, lambda x: E.add(x, E.const(1.5))),
    'from one': un(lambda x: 1 - x, lambda x: E.sub(E.ONE, x)),
    'minus': un(lambda x: x - 3, lambda x: E.sub(x, E.const(3))),
    'inverse': un(lambda x: 2 / (x * x + 1), lambda x: E.div(E.const(2), E.add(E.mul(x, x), E.ONE))),
    'array factor': (1, lambda s: s in ((3,), (2, 3)), lambda x: x * _c(tuple(x.shape)),
                     lambda x: _map(lambda a, c: E.mul(E.lift(a), E.lift(c)), x, _c(x.shape))),
    'array shift': (1, lambda s: s in ((3,), (2, 3)), lambda x: x - _c(tuple(x.shape)),
                    lambda x: _map(lambda a, c: E.sub(E.lift(a), E.lift(c)), x, _c(x.shape))),
    'sum': (1, lambda s: s != (1,), lambda x: ot.sum(x), s_sumall),
    'sum rows': (1, lambda s: len(s) == 2, lambda x: ot.sum(x, axes=(0,)), s_sumaxis(0)),
    'average columns': (1, lambda s: len(s) == 2, lambda x: ot.average(x, axes=(1,)), s_avgaxis(1)),
    'average': (1, lambda s: s != (1,), lambda x: ot.average(x),
                lambda x: _map(lambda e: E.div(e, E.const(x.size)), s_sumall(x))),
    'norm of rows': (1, lambda s: len(s) == 2, lambda x: ot.pnorm(x * x + 1, axis=1), s_rows_root),
    'largest': (1, lambda s: s in ((2,), (3,)), lambda x: ot.max(x, rho=2.),
                lambda x: _full(s_softmax(1, 2)(*A.lift_arr(x).flat))),
    'least of rows': (1, lambda s: s == (2, 2), lambda x: ot.min(x, axis=1, rho=2.),
                      lambda x: _wrap(np.array([s_softmax(-1, 2)(*r) for r in A.lift_arr(x)] + [None],
                                               dtype=object)[:-1])),
    'transpose': (1, lambda s: len(s) == 2, ot.transpose,
                  lambda x: _wrap(A.lift_arr(x).T.copy())),
    'reorder': (1, lambda s: len(s) == 2, lambda x: ot.reorder_axes(x, 'ij->ji'),
                lambda x: _wrap(A.lift_arr(x).T.copy())),
    'flatten': (1, lambda s: len(s) == 2, lambda x: ot.reshape(x, (int(np.prod(x.shape)),)),
                lambda x: _wrap(A.lift_arr(x).reshape(-1).copy())),
    'to matrix': (1, lambda s: s == (6,), lambda x: ot.reshape(x, (2, 3)),
                  lambda x: _wrap(A.lift_arr(x).reshape(2, 3).copy())),
    'expand': (1, lambda s: s == (1,), lambda x: ot.expand(x, (3,)), s_expand((3,))),
    'expand matrix': (1, lambda s: s == (1,), lambda x: ot.expand(x, (2, 3)), s_expand((2, 3))),
    'first': (1, lambda s: len(s) == 1 and s[0] > 1, lambda x: x[0],
              lambda x: _wrap(A.lift_arr(x)[:1].copy())),
    'tail': (1, lambda s: len(s) == 1 and s[0] > 2, lambda x: x[1:3],
             lambda x: _wrap(A.lift_arr(x)[1:3].copy())),
    'every other': (1, lambda s: len(s) == 1 and s[0] > 2, lambda x: x[0:3:2],
                    lambda x: _wrap(A.lift_arr(x)[0:3:2].copy())),
    'entry': (1, lambda s: len(s) == 2 and s[0] > 1 and s[1] > 1, lambda x: x[1, 1],
              lambda x: _wrap(A.lift_arr(x)[1:2, 1:2].copy())),
    'row': (1, lambda s: len(s) == 2 and s[0] > 1, lambda x: x[1, :],
            lambda x: _wrap(A.lift_arr(x)[1:2, :].copy())),
    'plus': (2, lambda a, b: a == b, lambda a, b: a + b, lambda a, b: _map(E.add, a, b)),
    'difference': (2, lambda a, b: a == b, lambda a, b: a - b, lambda a, b: _map(E.sub, a, b)),
    'times': (2, lambda a, b: a == b, lambda a, b: a * b, lambda a, b: _map(E.mul, a, b)),
    'over': (2, lambda a, b: a == b, lambda a, b: a / (b * b + 2),
             lambda a, b: _map(lambda x, y: E.div(x, E.add(E.mul(y, y), E.const(2))), a, b)),
    'linear': (2, lambda a, b: a == b, lambda a, b: 2 * a - 3 * b + 1,
               lambda a, b: _map(lambda x, y: E.add(E.sub(E.mul(E.const(2), x),
                                                          E.mul(E.const(3), y)), E.ONE), a, b)),
    'sum two': (2, lambda a, b: a == b and a != (1,), lambda a, b: ot.sum(a, b), lambda a, b: _map(E.add, a, b)),
    'mean of two': (2, lambda a, b: a == b and a != (1,), lambda a, b: ot.average(a, b),
                    lambda a, b: _map(lambda x, y: E.div(E.add(x, y), E.const(2)), a, b)),
    'lesser': (2, lambda a, b: a == b == (2,), lambda a, b: ot.min(a, b, rho=2.),
               lambda a, b: _map(s_softmax(-1, 2), a, b)),
    'sum three': (3, lambda a, b, c: a == b == c and a != (1,), lambda a, b, c: ot.sum(a, b, c),
                  lambda a, b, c: _map(lambda x, y, z: E.add(x, E.add(y, z)), a, b, c)),
    'contract': (2, lambda a, b: len(a) == len(b) == 2 and a[1] == b[0],
                 lambda a, b: ot.inner(a, b, axes=([1], [0])), s_matmat),
    'sparse einsum': (2, lambda a, b: len(a) == 2 and len(b) == 2 and a[1] == b[0],
                      lambda a, b: ot.einsum(a, b, subscripts='ij,jk->ik', partial_format='sparse'),
                      s_matmat),
    'new einsum': (2, lambda a, b: len(a) == 2 and len(b) == 1 and a[1] == b[0],
                   lambda a, b: ot.einsum_new_api(a, b, operation=[('r', 's'), ('s',), ('r',)]),
                   s_matvec),
    'spread': (1, lambda s: s in ((2,), (3,)), lambda x: ot.expand(x, (2,) + tuple(x.shape), 'i->ji'),
               lambda x: _wrap(np.array([list(A.lift_arr(x))] * 2, dtype=object))),
    'matmat': (2, lambda a, b: len(a) == len(b) == 2 and a[1] == b[0], ot.matmat, s_matmat),
    'matvec': (2, lambda a, b: len(a) == 2 and len(b) == 1 and a[1] == b[0], ot.matvec, s_matvec),
    'inner': (2, lambda a, b: a == b == (3,) or a == b == (2,), ot.inner, s_inner),
    'dot': (2, lambda a, b: a == b == (3,) or a == b == (2,), ot.dot, s_inner),
    'outer': (2, lambda a, b: len(a) == 1 and len(b) == 1 and a != (1,) and b != (1,), ot.outer,
              s_outer),
    'cross': (2, lambda a, b: a == b == (3,), lambda a, b: ot.cross(a, b, axis=0), s_cross),
    'norm': (1, lambda s: True, lambda x: ot.pnorm(x * x + 1, pnorm_type=2),
             lambda x: _full(_root(_sum((e * e + 1) ** 2 for e in A.lift_arr(x).flat)))),
    'turn': (1, lambda s: s in ((1,), (2,)), lambda x: ot.rotmat(x, 'z'), s_turn),
    'choose': (3, lambda c, a, b: c == (1,) and a == b, lambda c, a, b: ot.if_else(c, a, b),
               lambda c, a, b: _map(lambda p, q: E.ite(E.lt(A.lift_arr(c)[0], E.ZERO), q, p), a, b)),
    'einsum': (2, lambda a, b: len(a) == 2 and len(b) == 1 and a[1] == b[0],
               lambda a, b: ot.einsum(a, b, subscripts='ij,j->i'), s_matvec),
}

# results a solver finds hard to reason about when they are nested
TRANSCENDENTAL = {'sin', 'cos', 'tanh', 'exp', 'turn', 'norm'}
COSTLY = {'log', 'root', 'arctan', 'norm of rows', 'largest', 'least of rows', 'lesser'}


def _concat(g, name, a, b):
    n, m = a.shape[0], b.shape[0]
    y = g.create_output(name, shape=(n + m,))
    y[0:m] = b
    y[m:n + m] = a
    return y


def _stack(g, name, a, b):
    y = g.create_output(name, shape=(2, a.shape[0]))
    y[1, 0:a.shape[0]] = ot.reshape(b, (1, a.shape[0]))
    y[0, 0:a.shape[0]] = ot.reshape(a, (1, a.shape[0]))
    return y


# assembled outputs, made through the group
GROUPED = {
    'concatenate': (2, lambda a, b: len(a) == len(b) == 1 and a[0] + b[0] <= 6, _concat, s_concat),
    'stack': (2, lambda a, b: len(a) == 1 and a == b, _stack, s_stack),
}
OPS.update(GROUPED)


class Program(object):
    """inputs: [(name, shape, 'input'|'indep')]; body: [(op, operand indices)]; operand k < len
    (inputs) is an input, otherwise statement k - len(inputs).
    registered: {statement: name}; when: 'once' | 'end' | 'backwards' | 'mixed' """

    def __init__(self, inputs, body, registered, when='end', shuffle=0, assembled=()):
        self.inputs = inputs
        self.body = body
        self.registered = registered
        self.when = when
        self.shuffle = shuffle
        self.assembled = set(assembled)

    def write(self, g, given=None):
        """given: {input: keyword arguments it is declared with}"""
        vs = []
        for n, s, k in self.inputs:
            f = g.create_indep_var if k == 'indep' else g.declare_input
            vs.append(f(n, **(given[n] if given else dict(shape=s, val=np.full(s, .7)))))
        later = []
        for i, (op, args) in enumerate(self.body):
            if op in GROUPED:
                # creating an output registers it
                v = GROUPED[op][2](g, self.registered[i], *[vs[a] for a in args])
                vs.append(v)
                continue
            v = OPS[op][2](*[vs[a] for a in args])
            vs.append(v)
            if i in self.registered:
                now = self.when == 'once' or (self.when == 'mixed' and i % 2 == 0)
                if now:
                    g.register_output(self.registered[i], v)
                else:
                    later.append((self.registered[i], v))
        if self.when == 'backwards':
            later.reverse()
        for n, v in later:
            g.register_output(n, v)
        return vs

    def meaning(self, ins):
        vs = [A.symarray(ins[n]) for n, _, _ in self.inputs]
        for op, args in self.body:
            vs.append(OPS[op][3](*[vs[a] for a in args]))
        k = len(self.inputs)
        return {n: vs[k + i] for i, n in self.registered.items()}

    def shapes(self):
        vs = [A.fresh(n, s) for n, s, _ in self.inputs]
        for op, args in self.body:
            vs.append(OPS[op][3](*[vs[a] for a in args]))
        return [tuple(v.shape) for v in vs]


def draw(rng, nops, sizes=((1,), (3,), (2, 3)), cheap=False, nin=None):
    """a program drawn with rng"""
    nin = nin or int(rng.integers(1, 4))
    inputs = []
    for k in range(nin):
        s = sizes[int(rng.integers(len(sizes)))]
        inputs.append(('x%d' % k, s, 'indep' if rng.random() < .25 else 'input'))
    shapes = [s for _, s, _ in inputs]
    degree = [1] * nin            # rough measure of the size of the meaning
    hard = [False] * nin          # reads a transcendental somewhere: its sign is not decided
    body = []
    names = list(OPS)
    tries = 0
    while len(body) < nops and tries < 2000:
        tries += 1
        op = names[int(rng.integers(len(names)))]
        n, ok = OPS[op][:2]
        # prefer recent values
        args = []
        for _ in range(n):
            if rng.random() < .6:
                args.append(len(shapes) - 1 - int(min(rng.geometric(.5) - 1, len(shapes) - 1)))
            else:
                args.append(int(rng.integers(len(shapes))))
        if op == 'norm' and (degree[args[0]] > 1 or shapes[args[0]] == (2, 3)):
            continue
        if op in COSTLY and max(degree[a] for a in args) > 2:
            continue
        if op == 'choose' and hard[args[0]]:
            continue
        if (op, args) in body:
            continue              # reading the same entries again is the same expression
        if not ok(*[shapes[a] for a in args]) or (op in ('difference', 'concatenate') and args[0] == args[1]):
            continue
        w = sum(degree[a] for a in args) * (2 if op in ('square', 'cube', 'inverse', 'over', 'norm', 'tanh')
                                            else 3 if op in ('sum rows', 'average columns', 'sum')
                                            and max(degree[a] for a in args) > 1 else 1)
        w += {'matmat': 2, 'sum': 2, 'sum two': 3, 'inner': 2, 'dot': 2, 'norm': 6}.get(op, 5 if op in COSTLY else 0)
        if w > (10 if cheap else 16):
            continue
        ins = [np.zeros(shapes[a]) for a in args]
        s = tuple(OPS[op][3](*[A.fresh('q', i.shape) for i in ins]).shape)
        if int(np.prod(s)) > 9:
            continue
        body.append((op, args))
        shapes.append(s)
        degree.append(w)
        hard.append(op in COSTLY or op in TRANSCENDENTAL or any(hard[a] for a in args))
    last = len(body) - 1
    registered = {last: 'y%d' % last}
    for i in range(last):
        if rng.random() < .4 or body[i][0] in GROUPED:
            registered[i] = 'y%d' % i
    when = ('once', 'end', 'backwards', 'mixed')[int(rng.integers(4))]
    return Program(inputs, body, registered, when)


def text(p):
    return '; '.join(['%s %s %s' % i for i in p.inputs]
                     + ['%s%s(%s)' % (p.registered.get(i, '_') + '=', op, ','.join(map(str, a)))
                        for i, (op, a) in enumerate(p.body)]) + ' [%s]' % p.when


def prune(p):
    """the program without statements no registered output needs"""
    k = len(p.inputs)
    live = set()

    def need(a):
        if a >= k and a not in live:
            live.add(a)
            for b in p.body[a - k][1]:
                need(b)
    for i in p.registered:
        need(k + i)
    new = {a: a for a in range(k)}
    body, reg = [], {}
    for i, (op, args) in enumerate(p.body):
        if k + i in live:
            new[k + i] = k + len(body)
            if i in p.registered:
                reg[len(body)] = p.registered[i]
            body.append((op, [new[a] for a in args]))
    return Program(p.inputs, body, reg, p.when)
