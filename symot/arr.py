"""numpy arrays of symbolic reals: the unmodified numpy code of /repo runs on these."""
import sys
import contextlib
import itertools

import numpy as np

from . import expr as E
from .expr import Sym, SymBool, Unencodable

_real = {n: getattr(np, n) for n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like',
                                     'empty_like', 'full_like', 'array', 'asarray')}


def _lift_el(x):
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, E.SymNum):
        return x.sym
    if isinstance(x, (bool, np.bool_)):
        return E.TRUE if x else E.FALSE
    if E.is_num(x):
        return E.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _lift_el(x.item())
    raise Unencodable('array element of type %s' % type(x))


_lift_vec = np.frompyfunc(_lift_el, 1, 1)


def lift_arr(x):
    """base-class object array with every element symbolic"""
    if isinstance(x, E.SymNum):
        x = x.sym
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = _real['asarray'](x)
    if isinstance(a, SymArray):
        a = a.view(np.ndarray)
    if a.ndim == 0:
        r = np.empty((), dtype=object)
        r[()] = _lift_el(a.item())
        return r
    if a.size == 0:
        return a.astype(object)
    return _lift_vec(a)


def wrap(x):
    """result of a numpy call -> SymArray where it holds symbolic objects"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            if x.ndim == 0:
                e = x[()]
                if isinstance(e, (Sym, SymBool)):
                    return e
                return x
            return x.view(SymArray)
        return x
    if isinstance(x, (list, tuple)) and any(isinstance(y, np.ndarray) for y in x):
        return type(x)(wrap(y) for y in x)
    return x


def unwrap(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(unwrap(y) for y in x)
    if isinstance(x, list):
        return [unwrap(y) for y in x]
    if isinstance(x, E.SymNum):
        return x.sym
    return x


def _boolish(a):
    """object array of SymBool/Sym -> real bool array if everything is decided, else None"""
    out = np.zeros(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        b = E.blift(a[i])
        if b is E.TRUE:
            out[i] = True
        elif b is not E.FALSE:
            return None
    return out


def decide_mask(m):
    """force a symbolic mask to concrete booleans (forks the path)"""
    a = m.view(np.ndarray) if isinstance(m, SymArray) else m
    out = np.zeros(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        out[i] = bool(E.blift(a[i]))
    return out


_UN = {'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sqrt', 'cbrt', 'sin', 'cos', 'tan',
       'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'square', 'reciprocal', 'absolute',
       'fabs', 'sign', 'floor', 'ceil', 'trunc', 'rint', 'conjugate', 'negative', 'positive'}
_BIN = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
        'divide': lambda a, b: a / b, 'true_divide': lambda a, b: a / b,
        'power': lambda a, b: a ** b, 'float_power': lambda a, b: a ** b,
        'maximum': lambda a, b: E.maximum([a, b]), 'minimum': lambda a, b: E.minimum([a, b]),
        'fmax': lambda a, b: E.maximum([a, b]), 'fmin': lambda a, b: E.minimum([a, b]),
        'less': lambda a, b: E.lift(a) < E.lift(b), 'greater': lambda a, b: E.lift(a) > E.lift(b),
        'less_equal': lambda a, b: E.lift(a) <= E.lift(b),
        'greater_equal': lambda a, b: E.lift(a) >= E.lift(b),
        'equal': lambda a, b: E.eq(E.lift(a), E.lift(b)),
        'not_equal': lambda a, b: E.bnot(E.eq(E.lift(a), E.lift(b))),
        'logical_and': lambda a, b: E.band(E.blift(a), E.blift(b)),
        'logical_or': lambda a, b: E.bor(E.blift(a), E.blift(b)),
        'logical_xor': lambda a, b: E.blift(a) ^ E.blift(b),
        'bitwise_and': lambda a, b: E.band(E.blift(a), E.blift(b)),
        'bitwise_or': lambda a, b: E.bor(E.blift(a), E.blift(b)),
        'bitwise_xor': lambda a, b: E.blift(a) ^ E.blift(b),
        'remainder': lambda a, b: E.lift(a) % E.lift(b), 'mod': lambda a, b: E.lift(a) % E.lift(b),
        'floor_divide': lambda a, b: E.lift(a) // E.lift(b),
        'hypot': lambda a, b: (a * a + b * b).sqrt(),
        'copysign': lambda a, b: E.ite(E.lt(E.lift(b), E.ZERO), -abs(E.lift(a)), abs(E.lift(a))),
        'heaviside': lambda a, b: E.ite(E.lt(E.lift(a), E.ZERO), E.ZERO,
                                        E.ite(E.eq(E.lift(a), E.ZERO), E.lift(b), E.ONE)),
        'logaddexp': lambda a, b: (E.lift(a).exp() + E.lift(b).exp()).log(),
        'arctan2': None}
_BOOLRES = {'less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal', 'logical_and',
            'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
            'logical_not', 'invert'}
_vecs = {}


def _vec(f, n):
    k = (f, n)
    if k not in _vecs:
        _vecs[k] = np.frompyfunc(f, n, 1)
    return _vecs[k]


def _un_fn(name):
    if name == 'negative':
        return lambda x: -E.lift(x)
    if name == 'positive':
        return lambda x: x
    return lambda x: getattr(E.lift(x), name)()


_un_fns = {n: _un_fn(n) for n in _UN}
_un_fns['logical_not'] = E.bnot
_un_fns['invert'] = E.bnot
_un_fns['isnan'] = lambda x: E.FALSE
_un_fns['isinf'] = lambda x: E.FALSE
_un_fns['isfinite'] = lambda x: E.TRUE
_un_fns['rad2deg'] = lambda x: E.lift(x) * (180. / np.pi)
_un_fns['deg2rad'] = lambda x: E.lift(x) * (np.pi / 180.)
_BOOLRES |= {'isnan', 'isinf', 'isfinite'}


class SymArray(np.ndarray):

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        kw.pop('subok', None)
        kw.pop('order', None)
        if where is not True:
            if method != '__call__':
                raise Unencodable('reduction with where=')
            if out is not None:
                out = out[0]
            res = symarray(getattr(ufunc, method)(*inputs, **kw))
            shape = np.broadcast_shapes(res.shape, np.shape(where))
            if out is None:
                out = fresh_garbage(shape)
            elif out.dtype != object:
                raise Unencodable('symbolic result into a %s array' % out.dtype)
            out.view(np.ndarray)[...] = lift_arr(_where(where, res, out.copy()))
            return out
        if name == 'matmul' and method == '__call__':
            res = np.matmul(*[lift_arr(x) for x in inputs])
        elif method == '__call__':
            ins = [lift_arr(x) for x in inputs]
            if len(ins) == 1 and name in _un_fns:
                res = _vec(_un_fns[name], 1)(ins[0])
            elif name == 'clip':
                res = lift_arr(_clip(ins[0], *inputs[1:]))
            elif len(ins) == 2 and _BIN.get(name):
                res = _vec(_BIN[name], 2)(ins[0], ins[1])
            elif name.endswith('(vectorized)'):
                res = ufunc(*ins)
            else:
                raise Unencodable('ufunc %s' % name)
        elif method == 'reduce':
            res = SymArray._reduce(name, inputs[0], **kw)
        elif method == 'outer' and _BIN.get(name):
            a, b = lift_arr(inputs[0]), lift_arr(inputs[1])
            f = _vec(_BIN[name], 2)
            res = f(a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == 'accumulate' and _BIN.get(name):
            res = lift_arr(inputs[0]).copy()
            ax = kw.get('axis', 0)
            v = np.moveaxis(res, ax, 0)
            for i in range(1, v.shape[0]):
                v[i] = _vec(_BIN[name], 2)(v[i - 1], v[i])
        elif method == 'at':
            a, idx, b = inputs
            np_at = getattr(ufunc, 'at')
            np_at(a.view(np.ndarray), unwrap(idx), lift_arr(b))
            return None
        else:
            raise Unencodable('ufunc %s.%s' % (name, method))
        if not isinstance(res, np.ndarray):
            if out is not None:
                out[0].view(np.ndarray)[()] = res
                return out[0]
            if name in _BOOLRES:
                if res is E.TRUE:
                    return True
                if res is E.FALSE:
                    return False
            return res
        if out is not None:
            o = out[0]
            if o.dtype != object:
                raise Unencodable('symbolic result into a %s array' % o.dtype)
            if o.shape != np.broadcast_shapes(o.shape, res.shape):
                raise ValueError('non-broadcastable output operand with shape %s doesn\'t match '
                                 'the broadcast shape %s' % (o.shape, res.shape))
            o.view(np.ndarray)[...] = res
            return o
        if name in _BOOLRES:
            b = _boolish(res)
            if b is not None:
                return b
        return wrap(res)

    @staticmethod
    def _reduce(name, a, axis=0, keepdims=False, initial=np._NoValue, **kw):
        a = lift_arr(a)
        f = _BIN.get(name)
        if f is None:
            raise Unencodable('reduce %s' % name)
        if axis is None:
            axis = tuple(range(a.ndim))
        if not isinstance(axis, tuple):
            axis = (axis,)
        axis = tuple(ax + a.ndim if ax < 0 else ax for ax in axis)
        for ax in axis:
            if not 0 <= ax < a.ndim:
                raise np.exceptions.AxisError(ax, a.ndim)
        rest = [k for k in range(a.ndim) if k not in axis]
        b = a.transpose(rest + list(axis))
        shp = tuple(a.shape[k] for k in rest)
        n = 1
        for k in axis:
            n *= a.shape[k]
        b = b.reshape(shp + (n,))
        res = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            els = list(b[i])
            if initial is not np._NoValue and initial is not None:
                els = [E.lift(initial)] + els
            if name in ('maximum', 'fmax'):
                if not els:
                    raise ValueError('zero-size array to reduction operation maximum')
                v = E.maximum(els)
            elif name in ('minimum', 'fmin'):
                if not els:
                    raise ValueError('zero-size array to reduction operation minimum')
                v = E.minimum(els)
            elif name == 'logaddexp' and els:
                v = els[0].exp()
                for x in els[1:]:
                    v = v + x.exp()
                v = v.log()
            elif name == 'logical_or':
                v = E.bor(*els) if els else E.FALSE
            elif name == 'logical_and':
                v = E.band(*els) if els else E.TRUE
            else:
                if not els:
                    v = E.ONE if name == 'multiply' else E.ZERO
                else:
                    v = els[0]
                    for x in els[1:]:
                        v = f(v, x)
            res[i] = v
        if keepdims:
            res = res.reshape(tuple(1 if k in axis else a.shape[k] for k in range(a.ndim)))
        elif res.ndim == 0:
            return res[()]
        return res

    def __array_function__(self, func, types, args, kwargs):
        h = _HANDLERS.get(func)
        out = kwargs.get('out')
        if out is not None and func is not np.copyto:
            if not isinstance(out, np.ndarray) or out.dtype != object:
                raise Unencodable('symbolic result into an array of numbers')
            res = func(*args, **{k: v for k, v in kwargs.items() if k != 'out'})
            if np.shape(res) != out.shape:
                raise ValueError('output of %s has the wrong shape' % func.__name__)
            out.view(np.ndarray)[...] = lift_arr(res)
            return out
        if h is not None:
            return h(*args, **kwargs)
        if func in _INHERIT:
            return super().__array_function__(func, (SymArray,), args, kwargs)
        if getattr(func, '__module__', '').startswith('numpy.linalg') and \
                func.__name__ not in ('matmul', 'outer', 'tensordot', 'cross', 'vecdot',
                                      'matrix_transpose', 'multi_dot', 'trace', 'diagonal'):
            raise Unencodable('numpy.linalg.%s' % func.__name__)
        args = unwrap(args)
        kwargs = {k: unwrap(v) for k, v in kwargs.items()}
        return wrap(func(*args, **kwargs))

    # ------------------------------------------------------------------ indexing
    def __getitem__(self, key):
        if isinstance(key, np.ndarray) and key.dtype == object:
            key = key.view(SymArray)
            if key.shape == self.shape:
                return MaskedPick(self, key)
            key = decide_mask(key)
        if isinstance(key, SymBool):
            key = bool(key)
        r = np.ndarray.__getitem__(self, key)
        if isinstance(r, np.ndarray) and r.ndim == 0 and False:
            return r[()]
        return r

    def __setitem__(self, key, val):
        if isinstance(key, np.ndarray) and key.dtype == object:
            key = key.view(SymArray)
            if key.shape != self.shape:
                key = decide_mask(key)
            else:
                base = self.view(np.ndarray)
                if isinstance(val, MaskedPick):
                    if not _same_mask(val.mask, key):
                        raise Unencodable('assignment through a different symbolic mask')
                    src = val.full
                elif isinstance(val, (Sym, SymBool)) or np.ndim(val) == 0:
                    src = np.broadcast_to(lift_arr(val), self.shape)
                else:
                    key = decide_mask(key)
                    np.ndarray.__setitem__(self, key, lift_arr(val))
                    return
                for i in np.ndindex(*self.shape):
                    base[i] = E.ite(E.blift(key[i]), src[i], base[i])
                return
        if isinstance(val, MaskedPick):
            val = val.materialise()
        if isinstance(key, tuple):
            key = unwrap(key)
        np.ndarray.__setitem__(self, key, lift_arr(val))

    def flatten(self, *a, **k):
        return np.ndarray.flatten(self, *a, **k)

    def fill(self, v):
        self[...] = v

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype) == object or np.dtype(dtype).kind in 'f':
            return self.copy()
        if np.dtype(dtype).kind == 'b':
            return decide_mask(self)
        if np.dtype(dtype).kind == 'c':
            return self.copy()
        flat = [E.lift(e) for e in self.view(np.ndarray).flat]
        if np.dtype(dtype).kind in 'iu' and all(E.isc(e) and e.args[0].denominator == 1
                                                for e in flat):
            return _real['array']([int(e.args[0]) for e in flat], dtype).reshape(self.shape)
        raise Unencodable('astype(%s) of symbolic values' % dtype)

    @property
    def real(self):
        return self

    def dot(self, other):
        return np.dot(self, other)

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else int(np.prod([self.shape[k] for k in (
            axis if isinstance(axis, tuple) else (axis,))]))
        return np.add.reduce(self, axis=axis, **{k: v for k, v in kw.items()
                                                 if k == 'keepdims'}) / n

    def any(self, axis=None, **kw):
        return np.logical_or.reduce(self, axis=axis)

    def all(self, axis=None, **kw):
        return np.logical_and.reduce(self, axis=axis)

    def argmax(self, axis=None, **kw):
        return np.argmax(self, axis=axis, **kw)

    def argmin(self, axis=None, **kw):
        return np.argmin(self, axis=axis, **kw)

    def argsort(self, axis=-1, **kw):
        return np.argsort(self, axis=axis)

    def nonzero(self):
        return np.nonzero(self)

    def sort(self, axis=-1, **kw):
        self[...] = np.sort(self, axis=axis)

    def round(self, decimals=0, out=None):
        return np.round(self, decimals)

    def clip(self, min=None, max=None, **kw):
        return np.clip(self, min, max)

    def item(self, *args):
        r = self.view(np.ndarray).item(*args)
        return r

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is '
                             'ambiguous. Use a.any() or a.all()')
        return bool(self.reshape(-1).view(np.ndarray)[0])


def _same_mask(a, b):
    return a.shape == b.shape and all(x is y for x, y in zip(a.view(np.ndarray).flat,
                                                            b.view(np.ndarray).flat))


class MaskedPick(object):
    """a[mask] for a symbolic mask, before it is known how it is used"""

    def __init__(self, full, mask):
        self.full = full.view(np.ndarray).copy()
        self.mask = mask

    def materialise(self):
        m = decide_mask(self.mask)
        return self.full[m].view(SymArray)

    def __array__(self, *a, **k):
        return self.materialise().view(np.ndarray)

    def _bin(self, o, f):
        if isinstance(o, MaskedPick):
            if not _same_mask(self.mask, o.mask):
                return f(self.materialise(), o.materialise())
            o = o.full
        elif np.ndim(o) != 0:
            return f(self.materialise(), o)
        return MaskedPick(f(self.full.view(SymArray), o), self.mask)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __neg__(self): return self._bin(-1, lambda a, b: a * b)
    def __getattr__(self, n): return getattr(self.materialise(), n)


def ufunc_on(ufunc, method, inputs, kw):
    return SymArray.__array_ufunc__(None, ufunc, method, *[
        x.view(SymArray) if isinstance(x, np.ndarray) and x.dtype == object else x
        for x in inputs], **kw)


def symarray(x):
    return lift_arr(x).view(SymArray)


def fresh(prefix, shape):
    a = np.empty(shape, dtype=object)
    for k, i in enumerate(np.ndindex(*shape)):
        a[i] = E.var('%s[%s]' % (prefix, ','.join(map(str, i))))
    return a.view(SymArray)


def const_arr(v, shape):
    a = np.empty(shape, dtype=object)
    a[...] = E.const(v)
    return a.view(SymArray)


# ------------------------------------------------------------------ numpy function handlers
_HANDLERS = {}
_INHERIT = set()


def _h(*fs):
    def deco(g):
        for f in fs:
            _HANDLERS[f] = g
        return g
    return deco


@_h(np.where)
def _where(cond, *ab):
    if not ab:
        if isinstance(cond, SymArray):
            cond = decide_mask(cond)
        return np.where(cond)
    a, b = ab
    return wrap(_vec(lambda c, x, y: E.ite(E.blift(c), E.lift(x), E.lift(y)), 3)(
        lift_arr(cond), lift_arr(a), lift_arr(b)))


@_h(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    x = symarray(x)
    if axis is None:
        if ord is None:
            x = x.reshape(-1)
        elif x.ndim != 1:
            raise Unencodable('matrix norm')
        axis = 0 if x.ndim == 1 else None
    if isinstance(axis, tuple) and len(axis) > 1 and ord is not None:
        raise Unencodable('matrix norm')
    if ord is None:
        ord = 2
    if ord == np.inf:
        return np.maximum.reduce(abs(x), axis=axis)
    if isinstance(ord, (int, float, np.number)) and ord > 0:
        p = int(ord) if float(ord).is_integer() else ord
        y = x ** p if p % 2 == 0 else abs(x) ** p
        s = np.add.reduce(y, axis=axis, keepdims=keepdims)
        if isinstance(s, SymArray):
            return s ** (E.Fraction(1) / E.to_fraction(p))
        return s ** E.const(E.Fraction(1) / E.to_fraction(p))
    raise Unencodable('norm ord=%r' % (ord,))


def _minor(m, r, c):
    return [[v for j, v in enumerate(row) if j != c] for i, row in enumerate(m) if i != r]


def _det(m):
    if not m:
        return E.ONE
    # along the row with most zeros
    r = max(range(len(m)), key=lambda i: sum(E.isc(v, 0) for v in m[i]))
    out = E.ZERO
    for c, v in enumerate(m[r]):
        if not E.isc(v, 0):
            t = E.mul(v, _det(_minor(m, r, c)))
            out = E.add(out, t) if (r + c) % 2 == 0 else E.sub(out, t)
    return out


def _square(m):
    m = [list(r) for r in lift_arr(m)]
    if len(m) > 6:
        raise Unencodable('linear system with more than 6 unknowns')
    return m


@_h(np.linalg.det)
def det(m):
    return _det(_square(m))


@_h(np.linalg.inv)
def _inv(m):
    m = _square(m)
    d = _det(m)
    out = np.empty((len(m), len(m)), dtype=object)
    for i in range(len(m)):
        for j in range(len(m)):
            v = _det(_minor(m, j, i))
            out[i, j] = E.div(v if (i + j) % 2 == 0 else E.sub(E.ZERO, v), d)
    return out.view(SymArray)


@_h(np.linalg.solve)
def _linsolve(m, b):
    inv = lift_arr(_inv(m))
    b = lift_arr(b)
    if b.ndim not in (1, 2) or b.shape[0] != inv.shape[0]:
        raise ValueError('solve: mismatch of shapes')
    cols = b.reshape(b.shape[0], -1)
    out = np.empty(cols.shape, dtype=object)
    for i in range(out.shape[0]):
        for k in range(out.shape[1]):
            s = E.ZERO
            for j in range(out.shape[0]):
                s = E.add(s, E.mul(inv[i, j], cols[j, k]))
            out[i, k] = s
    return out.reshape(b.shape).view(SymArray)


@_h(np.zeros_like)
def _zeros_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return const_arr(0, np.shape(a) if shape is None else shape)


@_h(np.ones_like)
def _ones_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return const_arr(1, np.shape(a) if shape is None else shape)


@_h(np.empty_like)
def _empty_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return fresh_garbage(np.shape(a) if shape is None else shape)


@_h(np.full_like)
def _full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None, **k):
    r = const_arr(0, np.shape(a) if shape is None else shape)
    r[...] = fill_value
    return r


@_h(np.amax, np.max)
def _amax(a, axis=None, out=None, keepdims=False, **k):
    return np.maximum.reduce(symarray(a), axis=axis, keepdims=bool(keepdims)
                             if keepdims is not np._NoValue else False)


@_h(np.amin, np.min)
def _amin(a, axis=None, out=None, keepdims=False, **k):
    return np.minimum.reduce(symarray(a), axis=axis, keepdims=bool(keepdims)
                             if keepdims is not np._NoValue else False)


@_h(np.any)
def _any(a, axis=None, **k):
    return np.logical_or.reduce(symarray(a), axis=axis)


@_h(np.all)
def _all(a, axis=None, **k):
    return np.logical_and.reduce(symarray(a), axis=axis)


@_h(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.add.reduce(symarray(a), axis=axis, keepdims=keepdims is True)


@_h(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.multiply.reduce(symarray(a), axis=axis, keepdims=keepdims is True)


@_h(np.mean)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return symarray(a).mean(axis=axis, keepdims=keepdims is True)


@_h(np.average)
def _average(a, axis=None, weights=None, **k):
    a = symarray(a)
    if weights is None:
        return a.mean(axis=axis)
    w = np.asarray(weights)
    if w.ndim == 1 and a.ndim > 1 and isinstance(axis, int):
        w = np.moveaxis(np.broadcast_to(w, tuple(np.delete(a.shape, axis)) + w.shape), -1, axis)
    return np.sum(a * w, axis=axis) / np.sum(w, axis=axis)


@_h(np.linalg.matrix_power)
def _matrix_power(a, n):
    r = symarray(np.eye(a.shape[0]))
    for _ in range(abs(n)):
        r = r @ a
    return r if n >= 0 else _inv(r)


@_h(np.einsum)
def _einsum(*args, **kw):
    kw.pop('optimize', None)
    if 'out' in kw:
        raise Unencodable('einsum out=')
    args = [lift_arr(a) if isinstance(a, np.ndarray) else a for a in args]
    return wrap(np.einsum(*args, **kw))


@_h(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rtol, atol = E.lift(rtol), E.lift(atol)

    def close(x, y):
        x, y = E.lift(x), E.lift(y)
        t = atol + rtol * abs(y)
        return E.band(x - y <= t, y - x <= t)
    return wrap(_vec(close, 2)(lift_arr(a), lift_arr(b)))


@_h(np.round, np.around)
def _round(a, decimals=0, out=None):
    if out is not None:
        raise Unencodable('round out=')
    return wrap(_vec(lambda x: E.lift(x).round(decimals), 1)(lift_arr(a)))


@_h(np.fix)
def _fix(a, out=None):
    return np.trunc(symarray(a))


@_h(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.all(_isclose(a, b, rtol, atol))


@_h(np.array_equal)
def _array_equal(a, b, *r, **k):
    a, b = symarray(a), symarray(b)
    if a.shape != b.shape:
        return False
    return np.all(a == b)


@_h(np.count_nonzero)
def _cnz(a, axis=None):
    return np.sum(_vec(lambda x: E.ite(E.blift(x), E.ONE, E.ZERO), 1)(
        lift_arr(a)).view(SymArray), axis=axis)


@_h(np.clip)
def _clip(a, lo=None, hi=None, **k):
    a = symarray(a)
    if lo is not None:
        a = np.maximum(a, lo)
    if hi is not None:
        a = np.minimum(a, hi)
    return a


@_h(np.copyto)
def _copyto(dst, src, **k):
    if not isinstance(dst, SymArray):
        raise Unencodable('copyto a concrete array')
    dst[...] = src


@_h(np.fill_diagonal)
def _fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    v = np.broadcast_to(lift_arr(val), (n,))
    for i in range(n):
        a[(i,) * a.ndim] = v[i]


def _arg(a, axis, better, keepdims=False):
    a = lift_arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(a, axis, -1)
    res = np.zeros(b.shape[:-1], dtype=int)
    for i in np.ndindex(*res.shape):
        best = 0
        for k in range(1, b.shape[-1]):
            if bool(better(E.lift(b[i][k]), E.lift(b[i][best]))):
                best = k
        res[i] = best
    if keepdims:
        return np.expand_dims(res, axis)
    return res if res.ndim else int(res)


@_h(np.argmax)
def _argmax(a, axis=None, out=None, keepdims=False, **k):
    return _arg(a, axis, lambda x, y: E.lt(y, x), keepdims is True)


@_h(np.argmin)
def _argmin(a, axis=None, out=None, keepdims=False, **k):
    return _arg(a, axis, lambda x, y: E.lt(x, y), keepdims is True)


def _order(v):
    from functools import cmp_to_key

    def cmp(i, j):
        if bool(E.lt(E.lift(v[i]), E.lift(v[j]))):
            return -1
        return int(bool(E.lt(E.lift(v[j]), E.lift(v[i]))))
    return sorted(range(len(v)), key=cmp_to_key(cmp))


@_h(np.argsort)
def _argsort(a, axis=-1, **k):
    a = lift_arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(a, axis, -1)
    res = np.zeros(b.shape, dtype=int)
    for i in np.ndindex(*b.shape[:-1]):
        res[i] = _order(b[i])
    return np.moveaxis(res, -1, axis)


@_h(np.sort)
def _sort(a, axis=-1, **k):
    a = lift_arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return np.take_along_axis(a, _argsort(a, axis), axis).view(SymArray)


@_h(np.nonzero)
def _nonzero(a):
    return np.nonzero(decide_mask(_truth(a)))


@_h(np.flatnonzero)
def _flatnonzero(a):
    return np.flatnonzero(decide_mask(_truth(a)))


@_h(np.argwhere)
def _argwhere(a):
    return np.argwhere(decide_mask(_truth(a)))


def _truth(a):
    return _vec(E.blift, 1)(lift_arr(a)).view(SymArray)


@_h(np.unique)
def _unique(*a, **k):
    raise Unencodable('distinct symbolic values')


_garbage = [0]


def fresh_garbage(shape):
    """contents of uninitialised memory: arbitrary"""
    _garbage[0] += 1
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    return fresh('uninit%d' % _garbage[0], tuple(int(s) for s in shape))


# ------------------------------------------------------------------ patching numpy creation
PREFIXES = ('omtools', 'symmodels')


def _from_target(depth=2):
    return sys._getframe(depth).f_globals.get('__name__', '').startswith(PREFIXES)


def _symbolic_dtype(dtype):
    return dtype is None or np.dtype(dtype).kind in 'fcO'


def _tuple(shape):
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    return tuple(int(s) for s in shape)


def _p_zeros(shape, dtype=None, *a, **k):
    if _from_target() and _symbolic_dtype(dtype):
        return const_arr(0, _tuple(shape))
    return _real['zeros'](shape, float if dtype is None else dtype, *a, **k)


def _p_ones(shape, dtype=None, *a, **k):
    if _from_target() and _symbolic_dtype(dtype):
        return const_arr(1, _tuple(shape))
    return _real['ones'](shape, dtype, *a, **k)


def _p_empty(shape, dtype=None, *a, **k):
    if _from_target() and _symbolic_dtype(dtype):
        return fresh_garbage(_tuple(shape))
    return _real['empty'](shape, float if dtype is None else dtype, *a, **k)


def _p_full(shape, fill_value, dtype=None, *a, **k):
    if _from_target() and _symbolic_dtype(dtype) and not isinstance(fill_value, (bool,)):
        r = const_arr(0, _tuple(shape))
        r[...] = fill_value
        return r
    return _real['full'](shape, fill_value, dtype, *a, **k)


def _p_array(x, *a, **k):
    if _from_target():
        if isinstance(x, (Sym, SymBool, E.SymNum)):
            return lift_arr(x).view(SymArray)
        r = _real['array'](unwrap(x), *[None if False else z for z in a],
                           **{kk: vv for kk, vv in k.items()
                              if not (kk == 'dtype' and _has_sym(x))})
        if r.dtype == object and r.size and isinstance(r.flat[0], (Sym, SymBool)):
            return r.view(SymArray)
        return r
    return _real['array'](x, *a, **k)


def _has_sym(x):
    if isinstance(x, (Sym, SymArray, E.SymNum)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def _p_asarray(x, *a, **k):
    if _from_target():
        if isinstance(x, SymArray):
            return x
        if _has_sym(x):
            return symarray(_real['asarray'](unwrap(x), dtype=object))
    return _real['asarray'](x, *a, **k)


def _p_zeros_like(a, *r, **k):
    if _from_target() and _has_sym(a):
        return _zeros_like(a, *r, **k)
    return _real['zeros_like'](a, *r, **k)


@contextlib.contextmanager
def symbolic_numpy():
    """While active, arrays created by code of /repo can hold symbolic values."""
    old = {n: getattr(np, n) for n in ('zeros', 'ones', 'empty', 'full', 'array', 'asarray')}
    np.zeros, np.ones, np.empty, np.full = _p_zeros, _p_ones, _p_empty, _p_full
    np.array, np.asarray = _p_array, _p_asarray
    try:
        yield
    finally:
        for n, f in old.items():
            setattr(np, n, f)
