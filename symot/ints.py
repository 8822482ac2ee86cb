"""Symbolic integers: extents, indices and axes of models under quantification.

A SymInt stands for an integer within bounds.  Comparisons fork the path explorer; code that
needs the number itself (range, numpy shapes, dict keys) forks over the values it can still have.
"""
from . import expr as E

DOMAIN = {}


class SymInt(object):
    __slots__ = ('sym',)
    __class__ = property(lambda self: int)       # passes for an int

    def __init__(self, sym):
        self.sym = sym

    # ------------------------------------------------------------ the number itself
    def value(self):
        env = {}
        for v in sorted(E.variables([self.sym]), key=lambda v: v.args[0]):
            env[v.args[0]] = pick(v)
        return int(E.evaluate([self.sym], env)[0])

    def __index__(self):
        return self.value()

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.value())

    def __hash__(self):
        return hash(self.value())

    def __repr__(self):
        return '<%s>' % E.show(self.sym, 3)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __bool__(self):
        return not bool(E.eq(self.sym, E.ZERO))

    # ------------------------------------------------------------ arithmetic
    def _op(self, o, f, g):
        if type(o) is SymInt:
            return SymInt(f(self.sym, o.sym))
        if isinstance(o, int) or hasattr(o, 'dtype') and o.dtype.kind in 'iu' and not o.shape:
            return SymInt(f(self.sym, E.const(int(o))))
        return g(self.value(), o)

    def __add__(self, o): return self._op(o, E.add, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: E.add(b, a), lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, E.sub, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: E.sub(b, a), lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, E.mul, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: E.mul(b, a), lambda a, b: b * a)
    def __neg__(self): return SymInt(E.sub(E.ZERO, self.sym))
    def __pos__(self): return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __truediv__(self, o): return self.value() / o
    def __rtruediv__(self, o): return o / self.value()
    def __floordiv__(self, o): return self.value() // o
    def __rfloordiv__(self, o): return o // self.value()
    def __mod__(self, o): return self.value() % o
    def __rmod__(self, o): return o % self.value()
    def __divmod__(self, o): return divmod(self.value(), o)
    def __rdivmod__(self, o): return divmod(o, self.value())
    def __pow__(self, o): return self.value() ** o
    def __rpow__(self, o): return o ** self.value()

    # ------------------------------------------------------------ comparison
    def _cmp(self, o, f):
        if type(o) is SymInt:
            return bool(f(self.sym, o.sym))
        if isinstance(o, (int, float)) or hasattr(o, 'dtype') and not o.shape:
            return bool(f(self.sym, E.const(o)))
        return NotImplemented

    def __eq__(self, o): return self._cmp(o, E.eq)

    def __ne__(self, o):
        r = self._cmp(o, E.eq)
        return r if r is NotImplemented else not r

    def __lt__(self, o): return self._cmp(o, E.lt)
    def __gt__(self, o): return self._cmp(o, lambda a, b: E.lt(b, a))
    def __le__(self, o): return self._cmp(o, lambda a, b: E.bnot(E.lt(b, a)))
    def __ge__(self, o): return self._cmp(o, lambda a, b: E.bnot(E.lt(a, b)))


def pick(v):
    """the value of an integer variable on this path; forks while several are possible"""
    dom = DOMAIN[v.args[0]]
    for d in dom[:-1]:
        if bool(E.eq(v, E.const(d))):
            return d
    return dom[-1]


def symint(name, values):
    DOMAIN[name] = list(values)
    return SymInt(E.var(name))


def within(name, values):
    """the condition that the variable has one of the values"""
    v = E.var(name)
    vs = list(values)
    if vs == list(range(vs[0], vs[-1] + 1)) and len(vs) > 12:
        raise ValueError('domain too large')
    return E.bor(*[E.eq(v, E.const(d)) for d in vs])
