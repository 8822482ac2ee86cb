"""Bracketed search."""
from checks.common import *
from symot.implicit import BracketCase
import omtools.api as ot

PROP = 'C17'
TITLE = 'bracketed search'
BOUNDS = dict(residuals='uninterpreted functions of the entry and of everything else the residual '
                        'reads, constrained only by the sign change over the bracket; linear '
                        'residuals of the real inner model as well',
              iterations='0 to 10 (thorough: 14) decided directly; 100 (the default) and 30 against '
                         'textbook bisection',
              states='1 or 2 bracketed states of 1 to 4 entries, besides states without a bracket',
              brackets='symbolic ends in either order, also of zero width, given as arrays, as one '
                       'number, or partly')
ASSUMPTIONS = ASSUME + ['residual entries depend on their own state entry and not on other bracketed '
                        'states (the documented use: one search per output)',
                        'a continuous residual: a sign change over an interval means a root in it']


def one(shape, N, ends='array', slopes='mixed', **kw):
    """a*(x - r)**3 + a*(x - r): one real root r; UF in the symbolic run"""
    n = int(np.prod(shape))

    def body(c, par):
        g = c.group
        a = g.declare_input('a', shape=shape)
        r = g.declare_input('r', shape=shape)
        x = g.create_implicit_output('x', shape=shape)
        t = x - r
        x.define_residual_bracketed(a * t**3 + a * t, x1=par['lo_x'], x2=par['hi_x'])

    def res(v):
        t = v['x'] - v['r']
        return {'x': v['a'] * t * t * t + v['a'] * t}

    def sample(rng):
        r = rng.uniform(-2, 2, size=shape)
        a = rng.choice([-1., 1.], size=shape) * rng.uniform(.5, 2, size=shape)
        s = () if ends == 'scalar' else shape
        w1, w2 = rng.uniform(0, 3, size=s), rng.uniform(0, 3, size=s)
        if ends == 'scalar':
            lo, hi = r.min() - w1, r.max() + w2
        else:
            lo, hi = r - w1, r + w2
        sw = rng.uniform(size=s) < .5
        if rng.uniform() < .3:
            lo = np.where(rng.uniform(size=s) < .5, r if s else lo, lo)   # a root at an end
        return {'a': a, 'r': r, 'x': rng.uniform(-2, 2, size=shape),
                'lo_x': np.where(sw, hi, lo), 'hi_x': np.where(sw, lo, hi)}
    return BracketCase('one state %s, %s steps, ends %s%s' % (
        shape, N, ends, ''.join(' %s=%s' % i for i in kw.items())), body,
        {'a': shape, 'r': shape}, {'x': shape}, {'x': ['a', 'r']}, res, sample, N, ends=ends,
        move=between('r', 1.), **kw)


def two(s1, s2, N, order=('x', 'y'), second=True, **kw):
    """two bracketed states, or one and a state without a bracket"""
    sh = {'x': s1, 'y': s2}

    def body(c, par):
        g = c.group
        a = g.declare_input('a')
        r = {'x': g.declare_input('r', shape=s1), 'y': g.declare_input('s', shape=s2)}
        st = {n: g.create_implicit_output(n, shape=sh[n]) for n in order}
        for n in order:
            t = st[n] - r[n]
            e = ot.expand(a, sh[n]) * t
            if n == 'x' or second:
                st[n].define_residual_bracketed(e, x1=par['lo_' + n], x2=par['hi_' + n])
            else:
                st[n].define_residual(e)

    def res(v):
        out = {}
        for n, r in (('x', 'r'), ('y', 's')):
            w = obj(sh[n])
            for i in np.ndindex(*sh[n]):
                w[i] = els(v['a'])[0] * (raw(v[n])[i] - raw(v[r])[i])
            out[n] = arr(w)
        return out

    def sample(rng):
        p = {'a': rng.choice([-1., 1.]) * rng.uniform(.5, 2, size=(1,))}
        for n, r in (('x', 'r'), ('y', 's')):
            p[r] = rng.uniform(-2, 2, size=sh[n])
            p[n] = rng.uniform(-2, 2, size=sh[n])
            if n == 'x' or second:
                w1, w2 = rng.uniform(0, 3, size=sh[n]), rng.uniform(0, 3, size=sh[n])
                sw = rng.uniform(size=sh[n]) < .5
                p['lo_' + n] = np.where(sw, p[r] + w2, p[r] - w1)
                p['hi_' + n] = np.where(sw, p[r] - w1, p[r] + w2)
        return p

    def move(p):
        p = dict(p)
        for n, r in (('x', 'r'), ('y', 's')):
            if n == 'x' or second:
                p = between(r, 1., n)(p)
        return p
    return BracketCase('%s and %s %s, %s, %s steps%s' % (
        s1, s2, 'both bracketed' if second else 'one bracketed', ','.join(order), N,
        ''.join(' %s=%s' % i for i in kw.items())), body, {'a': (1,), 'r': s1, 's': s2}, sh,
        {'x': ['a', 'r'], 'y': ['a', 's']}, res, sample, N,
        brackets=['x', 'y'] if second else ['x'], move=move, **kw)


def linear(shape, N, **kw):
    """the real inner model: k*x - r with a nonzero constant k"""
    k = -3.

    def body(c, par):
        g = c.group
        r = g.declare_input('r', shape=shape)
        x = g.create_implicit_output('x', shape=shape)
        x.define_residual_bracketed(k * x - r, x1=par['lo_x'], x2=par['hi_x'])

    def sample(rng):
        x = rng.uniform(-2, 2, size=shape)
        w1, w2 = rng.uniform(0, 3, size=shape), rng.uniform(0, 3, size=shape)
        sw = rng.uniform(size=shape) < .5
        return {'r': k * x, 'x': rng.uniform(-2, 2, size=shape),
                'lo_x': np.where(sw, x + w2, x - w1), 'hi_x': np.where(sw, x - w1, x + w2)}
    return BracketCase('inner model %s, %s steps%s' % (shape, N, ''.join(
        ' %s=%s' % i for i in kw.items())), body, {'r': shape}, {'x': shape}, {'x': ['r']},
        lambda v: {'x': arr(obj_map(lambda x, r: E.lift(k) * x - r, v['x'], v['r']))}, sample, N,
        real=True, move=between('r', k), **kw)


def between(name, k, state='x'):
    def move(p):
        t = .5 + .4 * np.sin(7. * np.asarray(p[name]))      # some place inside the bracket
        lo, hi = p['lo_' + state], p['hi_' + state]
        return dict(p, **{name: k * (lo + t * (hi - lo))})
    return move


def obj_map(f, a, b):
    a, b = raw(a), raw(b)
    o = obj(a.shape)
    for i in np.ndindex(*a.shape):
        o[i] = f(a[i], b[i])
    return o


def cases(tier):
    top = 10 if tier == 'quick' else 14
    out = []
    for N in range(top + 1):
        out.append(one((1,), N))
        if N <= top // 2:
            out.append(one((2,), N))
            out.append(one((2, 2), N))
            out.append(one((2,), N, ends='scalar'))
            out.append(one((2,), N, history=2))
            out.append(linear((2,), N))
        if N <= 3 or tier == 'thorough':
            for od in (('x', 'y'), ('y', 'x')):
                for sec in (True, False):
                    out.append(two((1,), (2,), N, od, sec))
            out.append(linear((1,), N, history=2))
            out.append(linear((1,), N, history=3))
            out.append(two((1,), (1,), N, history=2))
            out.append(two((1,), (2,), N, second=False, history=2))
    for N in (None, 30):
        for s in ((1,), (2, 2)):
            out.append(one(s, N, reference=True))
        out.append(two((1,), (2,), N, reference=True))
    return out
