"""Symbolic real expressions (hash-consed DAG), symbolic booleans, path exploration.

Sym values stand for real numbers.  Python/numpy code of the system under test is
executed unmodified with Sym objects in place of floats; every operator builds a term.
A SymBool whose truth value is asked for makes the path explorer fork.
"""
import math
from fractions import Fraction
import numbers

import numpy as _np


class Unencodable(Exception):
    """The code under test did something the encoding does not model."""


class SymNum(float):
    """A Python float whose value is symbolic (constants of a model under quantification)."""

    def __new__(cls, sym):
        self = float.__new__(cls, 'nan')
        self.sym = sym
        return self

    def _op(self, o, f):
        if isinstance(o, SymNum):
            o = o.sym
        if isinstance(o, (int, float, Fraction)):
            r = f(self.sym, lift(o))
        elif isinstance(o, _np.generic):
            r = f(self.sym, lift(o.item()))
        else:
            if isinstance(o, _np.ndarray):
                return f(self.sym, o) if o.dtype == object else f(self.sym, o.astype(object))
            if isinstance(o, (Sym, SymBool)):
                return f(self.sym, o)
            return NotImplemented
        return SymNum(r) if isinstance(r, Sym) else r

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._op(o, lambda a, b: b / a)
    def __pow__(self, o): return self._op(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._op(o, lambda a, b: b ** a)
    def __neg__(self): return SymNum(-self.sym)
    def __pos__(self): return self
    def __abs__(self): return SymNum(abs(self.sym))
    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._op(o, lambda a, b: a == b)
    def __ne__(self, o): return self._op(o, lambda a, b: a != b)
    def __hash__(self): return self.sym.id
    def __bool__(self): return bool(self.sym)
    def __repr__(self): return 'SymNum(%r)' % self.sym
    __str__ = __repr__

    def __float__(self):
        raise Unencodable('float() of a symbolic constant')

    def __int__(self):
        raise Unencodable('int() of a symbolic constant')

    def is_integer(self):
        raise Unencodable('is_integer() of a symbolic constant')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_on(ufunc, method, [x.sym if isinstance(x, SymNum) else x
                                            for x in inputs], kw)


def to_fraction(x):
    """The real number a numeric literal stands for.

    Floats are read as the simplest rational that rounds to the same double (denominator
    up to 10**6), so that 0.1 or 1/3 mean what the source says; any other double is exact.
    """
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if not math.isfinite(x):
            raise Unencodable('non-finite constant %r' % x)
        f = Fraction(x)
        if f.denominator == 1:
            return f
        g = f.limit_denominator(10 ** 6)
        if float(g) == x:
            return g
        g = f.limit_denominator(1000)      # 1/3 - 1 and the like: equal up to rounding
        if abs(float(g) - x) <= 4.5e-16 * max(1., abs(x)):
            return g
        return f
    raise Unencodable('cannot read constant %r' % (type(x),))


_table = {}
_counter = [0]


def reset_table():
    _table.clear()


class Sym(object):
    __slots__ = ('op', 'args', 'id', '_vars', '__weakref__')

    def __repr__(self):
        return show(self)

    # arithmetic -----------------------------------------------------------------
    def __add__(self, o):
        return _bin(add, self, o)

    def __radd__(self, o):
        return _bin(add, o, self)

    def __sub__(self, o):
        return _bin(sub, self, o)

    def __rsub__(self, o):
        return _bin(sub, o, self)

    def __mul__(self, o):
        return _bin(mul, self, o)

    def __rmul__(self, o):
        return _bin(mul, o, self)

    def __truediv__(self, o):
        return _bin(div, self, o)

    def __rtruediv__(self, o):
        return _bin(div, o, self)

    def __pow__(self, o):
        return _bin(power, self, o)

    def __rpow__(self, o):
        return _bin(power, o, self)

    def __neg__(self):
        return mul(const(-1), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(lt(self, ZERO), -self, self)

    # comparisons ------------------------------------------------------------------
    def __lt__(self, o):
        return lt(self, lift(o))

    def __gt__(self, o):
        return lt(lift(o), self)

    def __le__(self, o):
        return bnot(lt(lift(o), self))

    def __ge__(self, o):
        return bnot(lt(self, lift(o)))

    def __eq__(self, o):
        if not is_num(o):
            return NotImplemented
        return eq(self, lift(o))

    def __ne__(self, o):
        if not is_num(o):
            return NotImplemented
        return bnot(eq(self, lift(o)))

    def __hash__(self):
        return self.id

    def __float__(self):
        if self.op == 'c':
            return float(self.args[0])
        raise Unencodable('float() of a symbolic value')

    def __int__(self):
        if self.op == 'c' and self.args[0].denominator == 1:
            return int(self.args[0])
        raise Unencodable('int() of a symbolic value')

    def __bool__(self):
        return bool(bnot(eq(self, ZERO)))

    # what numpy calls on object-array elements ------------------------------------
    def sin(self): return uf('sin', self)
    def cos(self): return uf('cos', self)
    def tan(self): return div(uf('sin', self), uf('cos', self))
    def exp(self): return uf('exp', self)
    def log(self): return uf('log', self)
    def log10(self): return div(uf('log', self), const(math.log(10.)))
    def log2(self): return div(uf('log', self), const(math.log(2.)))
    def log1p(self): return uf('log', add(ONE, self))
    def expm1(self): return sub(uf('exp', self), ONE)
    def sqrt(self): return power(self, const(Fraction(1, 2)))
    def cbrt(self): return power(self, const(Fraction(1, 3)))
    def arcsin(self): return uf('asin', self)
    def arccos(self): return uf('acos', self)
    def arctan(self): return uf('atan', self)

    def sinh(self):
        e = uf('exp', self)
        return div(sub(e, div(ONE, e)), const(2))

    def cosh(self):
        e = uf('exp', self)
        return div(add(e, div(ONE, e)), const(2))

    def tanh(self):
        e = uf('exp', self)
        i = div(ONE, e)
        return div(sub(e, i), add(e, i))

    def floor(self): return uf('floor', self)
    def ceil(self): return -uf('floor', -self)
    def trunc(self): return ite(lt(self, ZERO), self.ceil(), self.floor())

    def rint(self):
        # half to even
        return ite(eq(sub(self, uf('floor', self)), const(Fraction(1, 2))),
                   mul(const(2), uf('floor', div(add(uf('floor', self), ONE), const(2)))),
                   uf('floor', add(self, const(Fraction(1, 2)))))

    def round(self, decimals=0, out=None):
        if decimals == 0:
            return self.rint()
        k = const(Fraction(10) ** int(decimals))
        return div(mul(self, k).rint(), k)

    def __floor__(self): return self.floor()
    def __ceil__(self): return self.ceil()
    def __trunc__(self): return self.trunc()
    def __round__(self, n=0): return self.round(n or 0)
    def __mod__(self, o): return sub(self, mul(lift(o), self // o))
    def __rmod__(self, o): return lift(o) % self
    def __floordiv__(self, o): return uf('floor', div(self, lift(o)))
    def __rfloordiv__(self, o): return lift(o) // self

    def square(self): return mul(self, self)
    def reciprocal(self): return div(ONE, self)
    def absolute(self): return abs(self)
    def fabs(self): return abs(self)
    def conjugate(self): return self
    def isnan(self): return False
    def isfinite(self): return True
    def isinf(self): return False

    def sign(self):
        return ite(lt(self, ZERO), const(-1), ite(eq(self, ZERO), ZERO, ONE))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.

    def item(self):
        return self


def is_num(x):
    return isinstance(x, (Sym, Fraction, numbers.Number, _np.number, _np.bool_)) and \
        not isinstance(x, complex)


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymNum):
        return x.sym
    if isinstance(x, SymBool):
        return ite(x, ONE, ZERO)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return const(x)


def _bin(f, a, b):
    for z in (a, b):
        if isinstance(z, _np.ndarray):
            if z.ndim == 0:
                continue
            return NotImplemented
        if not isinstance(z, (Sym, SymBool)) and not is_num(z):
            return NotImplemented
    return f(lift(a), lift(b))


def _mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, (Sym, SymBool)) else a for a in args)
    n = _table.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op = op
        n.args = args
        _counter[0] += 1
        n.id = _counter[0]
        n._vars = None
        _table[key] = n
    return n


def const(x):
    return _mk('c', to_fraction(x))


def var(name):
    return _mk('v', name)



def isc(a, v=None):
    return a.op == 'c' and (v is None or a.args[0] == v)


# Operands that simplification removes: 0 * (1 / x) is 0 where 1 / x is defined.  While a
# component runs they are kept, for the obligation that they are defined.
dropped = None
_PARTIAL = ('div', 'powr', 'f:log', 'f:asin', 'f:acos')
_partial = {}


def partial(e):
    """is there an operation in e that is not defined everywhere?"""
    r = _partial.get(e.id)
    if r is None:
        for n in topo([e]):
            if n.id not in _partial:
                _partial[n.id] = n.op in _PARTIAL or n.op.startswith('f:root') or any(
                    _partial[x.id] for x in n.args if isinstance(x, (Sym, SymBool)))
        r = _partial[e.id]
    return r


def _drop(e):
    if dropped is not None and e.op != 'c' and partial(e):
        dropped[e.id] = e


def add(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] + b.args[0])
    if isc(a, 0):
        return b
    if isc(b, 0):
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk('add', a, b)


def sub(a, b):
    if a is b:
        _drop(a)
        return ZERO
    return add(a, mul(const(-1), b))


def mul(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] * b.args[0])
    if isc(a, 0) or isc(b, 0):
        _drop(a)
        _drop(b)
        return ZERO
    if isc(a, 1):
        return b
    if isc(b, 1):
        return a
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c' and b.op == 'mul' and b.args[0].op == 'c':
        return mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
    if a.op != 'c' and a.id > b.id:
        a, b = b, a
    return _mk('mul', a, b)


class SymZeroDivision(Exception):
    pass


def div(a, b):
    if b.op == 'c':
        if b.args[0] == 0:
            raise Unencodable('division by the constant zero')
        return mul(const(1 / b.args[0]), a)
    if dropped is not None and (isc(a, 0) or a is b or b.op == 'div'):
        e = _mk('div', a, b)
        dropped[e.id] = e
    if isc(a, 0):
        return ZERO
    if a is b:
        return ONE
    if b.op == 'div':      # a / (p/q) = a*q/p
        return div(mul(a, b.args[1]), b.args[0])
    return _mk('div', a, b)


def ipow(a, n):
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return div(ONE, ipow(a, -n))
    if a.op == 'c':
        return const(a.args[0] ** n)
    if a.op == 'pow':
        return _mk('pow', a.args[0], a.args[1] * n)
    return _mk('pow', a, n)


def _choice(e):
    if e.op == 'ite':
        return e
    if e.op in ('add', 'mul'):
        t = _choice(e.args[0])
        return _choice(e.args[1]) if t is None else t
    return None


def _chosen(e, t, v):
    if e is t:
        return v
    if e.op in ('add', 'mul'):
        return (add if e.op == 'add' else mul)(_chosen(e.args[0], t, v), _chosen(e.args[1], t, v))
    return e


def power(a, b):
    """a**b for a constant rational b (anything else through exp/log)."""
    if b.op != 'c':
        t = _choice(b)
        if t is not None:       # the exponent depends on a condition: one power for each case
            return ite(t.args[0], power(a, _chosen(b, t, t.args[1])),
                       power(a, _chosen(b, t, t.args[2])))
        if b.op == 'add' and (b.args[0].op == 'c' or b.args[1].op == 'c'):
            k, r = b.args if b.args[0].op == 'c' else (b.args[1], b.args[0])
            if k.args[0].denominator == 1:
                return mul(power(a, r), ipow(a, int(k.args[0])))
        if a.op == 'c' and a.args[0] > 0:
            return uf('exp', mul(const(math.log(float(a.args[0]))), b))
        return uf('exp', mul(b, uf('log', a)))
    e = b.args[0]
    if e.denominator == 1 and abs(e.numerator) <= 64:
        return ipow(a, int(e))
    if a.op == 'c' and a.args[0] >= 0:
        return const(float(a.args[0]) ** float(e))
    fl = math.floor(e)
    fr = e - fl
    if fr.denominator <= 64:
        # a**(p/q) = root_q(a)**p, with root_q(a) >= 0
        r = uf('root%d' % fr.denominator, a)
        return mul(ipow(a, fl), ipow(r, fr.numerator))
    return mul(ipow(a, fl), _mk('powr', a, fr))


def uf(name, a):
    if a.op == 'c':
        v = a.args[0]
        if name == 'exp' and v == 0:
            return ONE
        if name == 'log' and v == 1:
            return ZERO
        if name in ('sin', 'asin', 'atan') and v == 0:
            return ZERO
        if name == 'cos' and v == 0:
            return ONE
        if name == 'floor':
            return const(math.floor(v))
        if name.startswith('root'):
            q = int(name[4:])
            if v >= 0:
                f = const(float(v) ** (1. / q))
                if f.args[0] ** q == v:
                    return f
    return _mk('f:' + name, a)


def ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    a = lift(a)
    b = lift(b)
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a is b:
        return a
    return _mk('ite', c, a, b)


def maximum(xs):
    """n-ary maximum; a node of its own so that the encoding can axiomatise it."""
    xs = [lift(x) for x in xs]
    flat = []
    for x in xs:
        flat.extend(x.args if x.op == 'max' else [x])
    seen = {}
    for x in flat:
        seen[x.id] = x
    xs = sorted(seen.values(), key=lambda n: n.id)
    cs = [x for x in xs if x.op == 'c']
    if len(cs) > 1:
        m = max(x.args[0] for x in cs)
        xs = [x for x in xs if x.op != 'c'] + [const(m)]
    if len(xs) == 1:
        return xs[0]
    return _mk('max', *xs)


def minimum(xs):
    return mul(const(-1), maximum([mul(const(-1), lift(x)) for x in xs]))


# --------------------------------------------------------------------------- booleans
class SymBool(object):
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __bool__(self):
        if self.op == 'true':
            return True
        if self.op == 'false':
            return False
        ex = Explorer.current
        if ex is None:
            raise Unencodable('branch on a symbolic condition outside an exploration')
        return ex.decide(self)

    def __and__(self, o):
        return band(self, blift(o))
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, blift(o))
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __xor__(self, o):
        o = blift(o)
        return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return band(self, o)
        return _bin(mul, lift(self), o)
    __rmul__ = __mul__

    def __add__(self, o):
        return _bin(add, lift(self), o)
    __radd__ = __add__

    def __sub__(self, o):
        return _bin(sub, lift(self), o)

    def __rsub__(self, o):
        return _bin(sub, o, lift(self))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else bnot(self)
        if isinstance(o, SymBool):
            return bnot(self ^ o)
        if is_num(o):
            return eq(lift(self), lift(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        return self.id

    def __repr__(self):
        return showb(self)


def _mkb(op, *args):
    key = ('B', op) + tuple(a.id if isinstance(a, (Sym, SymBool)) else a for a in args)
    n = _table.get(key)
    if n is None:
        n = object.__new__(SymBool)
        n.op = op
        n.args = args
        _counter[0] += 1
        n.id = _counter[0]
        _table[key] = n
    return n


ZERO = const(0)
ONE = const(1)
TRUE = _mkb('true')
FALSE = _mkb('false')


def blift(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        x = x.sym
    if isinstance(x, Sym):
        return bnot(eq(x, ZERO))
    return TRUE if x else FALSE


def boolvar(name):
    return _mkb('bv', name)


def lt(a, b):
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    return _mkb('lt', a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.id > b.id:
        a, b = b, a
    return _mkb('eq', a, b)


def bnot(a):
    a = blift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mkb('not', a)


def band(*xs):
    out = []
    for x in xs:
        x = blift(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if all(x is not y for y in out):
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mkb('and', *out)


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def implies(a, b):
    return bor(bnot(a), b)


# --------------------------------------------------------------------------- printing
def show(n, depth=6):
    if n.op == 'c':
        f = n.args[0]
        return str(f) if f.denominator < 10 ** 6 else repr(float(f))
    if n.op == 'v':
        return n.args[0]
    if depth <= 0:
        return '..'
    if n.op == 'add':
        return '(%s + %s)' % tuple(show(a, depth - 1) for a in n.args)
    if n.op == 'mul':
        return '%s*%s' % tuple(show(a, depth - 1) for a in n.args)
    if n.op == 'div':
        return '%s/(%s)' % tuple(show(a, depth - 1) for a in n.args)
    if n.op == 'pow':
        return '%s^%d' % (show(n.args[0], depth - 1), n.args[1])
    if n.op == 'powr':
        return '%s^%s' % (show(n.args[0], depth - 1), n.args[1])
    if n.op == 'ite':
        return 'ite(%s,%s,%s)' % (showb(n.args[0], depth - 1), show(n.args[1], depth - 1),
                                  show(n.args[2], depth - 1))
    return '%s(%s)' % (n.op.replace('f:', ''), ', '.join(show(a, depth - 1) for a in n.args))


def showb(n, depth=6):
    if depth <= 0:
        return '..'
    if n.op in ('lt', 'eq'):
        return '%s %s %s' % (show(n.args[0], depth - 1), '<' if n.op == 'lt' else '==',
                             show(n.args[1], depth - 1))
    if n.op == 'bv':
        return n.args[0]
    if n.op in ('true', 'false'):
        return n.op
    return '%s(%s)' % (n.op, ', '.join(showb(a, depth - 1) if isinstance(a, SymBool)
                                       else show(a, depth - 1) for a in n.args))


# --------------------------------------------------------------------------- traversal
def topo(roots):
    """Nodes reachable from roots, children first."""
    seen = set()
    out = []
    for r in roots:
        if not isinstance(r, (Sym, SymBool)) or r.id in seen:
            continue
        stack = [(r, False)]
        while stack:
            n, done = stack.pop()
            if done:
                out.append(n)
                continue
            if n.id in seen:
                continue
            seen.add(n.id)
            stack.append((n, True))
            for a in n.args:
                if isinstance(a, (Sym, SymBool)) and a.id not in seen:
                    stack.append((a, False))
    return out


def variables(roots):
    return [n for n in topo(roots) if isinstance(n, Sym) and n.op == 'v']


def substitute(roots, mapping):
    """Replace variables (mapping: name -> Sym); returns list of new roots."""
    new = {}
    for n in topo(roots):
        a = [new[x.id] if isinstance(x, (Sym, SymBool)) else x for x in n.args]
        new[n.id] = rebuild(n, a, mapping)
    return [new[r.id] for r in roots]


def resolve(roots, conds):
    """the same expressions where `conds` hold: conditions among them, and their negations,
    are decided"""
    known = {}
    todo = list(conds)
    while todo:
        c = todo.pop()
        if c.op == 'and':
            todo.extend(c.args)
        elif c.op == 'not':
            known[c.args[0].id] = FALSE
        else:
            known[c.id] = TRUE
    new = {}
    for n in topo(roots):
        if n.id in known:
            new[n.id] = known[n.id]
            continue
        a = [new[x.id] if isinstance(x, (Sym, SymBool)) else x for x in n.args]
        r = rebuild(n, a)
        new[n.id] = known.get(r.id, r)
    return [new[r.id] for r in roots]


def rebuild(n, a, mapping=None):
    if isinstance(n, SymBool):
        if n.op in ('true', 'false', 'bv'):
            return n
        if n.op == 'lt':
            return lt(*a)
        if n.op == 'eq':
            return eq(*a)
        if n.op == 'not':
            return bnot(*a)
        if n.op == 'and':
            return band(*a)
        raise AssertionError(n.op)
    if n.op == 'c':
        return n
    if n.op == 'v':
        return mapping.get(n.args[0], n) if mapping else n
    if n.op == 'add':
        return add(*a)
    if n.op == 'mul':
        return mul(*a)
    if n.op == 'div':
        return div(*a)
    if n.op == 'pow':
        return ipow(a[0], a[1])
    if n.op == 'powr':
        return _mk('powr', a[0], a[1])
    if n.op == 'ite':
        return ite(*a)
    if n.op == 'max':
        return maximum(a)
    if n.op.startswith('f:'):
        return uf(n.op[2:], a[0])
    if n.op == 'dmax':
        return _mk('dmax', *a)
    if n.op.startswith('U:'):
        return _mk(n.op, *a)
    raise AssertionError(n.op)


def ufun(name, *args):
    """Application of an uninterpreted real function (stands for arbitrary user code)."""
    return _mk('U:' + name, *[lift(a) for a in args])


# --------------------------------------------------------------------------- derivative
def grad(roots, wrt):
    """[[d root / d v for v in wrt] for root in roots] (forward over the shared DAG)."""
    order = topo(roots)
    idx = {v.id: k for k, v in enumerate(wrt)}
    # sparse: node id -> {k: Sym}
    d = {}
    for n in order:
        if isinstance(n, SymBool):
            continue
        if n.op == 'c':
            d[n.id] = {}
            continue
        if n.op == 'v':
            d[n.id] = {idx[n.id]: ONE} if n.id in idx else {}
            continue
        if n.op == 'add':
            a, b = d[n.args[0].id], d[n.args[1].id]
            r = dict(a)
            for k, v in b.items():
                r[k] = add(r[k], v) if k in r else v
        elif n.op == 'mul':
            x, y = n.args
            r = {}
            for k, v in d[x.id].items():
                r[k] = mul(v, y)
            for k, v in d[y.id].items():
                t = mul(v, x)
                r[k] = add(r[k], t) if k in r else t
        elif n.op == 'div':
            x, y = n.args
            r = {}
            for k, v in d[x.id].items():
                r[k] = div(v, y)
            if d[y.id]:
                f = mul(const(-1), div(x, ipow(y, 2)))
                for k, v in d[y.id].items():
                    t = mul(f, v)
                    r[k] = add(r[k], t) if k in r else t
        elif n.op == 'ite':
            c, x, y = n.args
            r = {}
            for k in set(d[x.id]) | set(d[y.id]):
                r[k] = ite(c, d[x.id].get(k, ZERO), d[y.id].get(k, ZERO))
        elif n.op == 'max':
            r = {}
            for i, x in enumerate(n.args):
                if d[x.id]:
                    w = _mk('dmax', n, const(i))
                    for k, v in d[x.id].items():
                        t = mul(w, v)
                        r[k] = add(r[k], t) if k in r else t
        elif n.op.startswith('U:'):
            r = {}
            for i, x in enumerate(n.args):
                if d[x.id]:
                    w = _mk('U:d%d_%s' % (i, n.op[2:]), *n.args)
                    for k, v in d[x.id].items():
                        t = mul(w, v)
                        r[k] = add(r[k], t) if k in r else t
        else:
            x = n.args[0]
            r = {}
            if d[x.id]:
                f = _d1(n, x)
                for k, v in d[x.id].items():
                    r[k] = mul(f, v)
        d[n.id] = r
    return [[d[r.id].get(k, ZERO) for k in range(len(wrt))] for r in roots]


def _d1(n, x):
    op = n.op
    if op == 'pow':
        k = n.args[1]
        return mul(const(k), ipow(x, k - 1))
    if op == 'powr':
        return div(mul(const(n.args[1]), n), x)
    name = op[2:]
    if name == 'sin':
        return uf('cos', x)
    if name == 'cos':
        return mul(const(-1), uf('sin', x))
    if name == 'exp':
        return n
    if name == 'floor':
        return ZERO
    if name == 'log':
        return div(ONE, x)
    if name == 'asin':
        return div(ONE, uf('root2', sub(ONE, ipow(x, 2))))
    if name == 'acos':
        return div(const(-1), uf('root2', sub(ONE, ipow(x, 2))))
    if name == 'atan':
        return div(ONE, add(ONE, ipow(x, 2)))
    if name.startswith('root'):
        q = int(name[4:])
        return div(ONE, mul(const(q), ipow(n, q - 1)))
    raise AssertionError(op)


# --------------------------------------------------------------------------- evaluation
def evaluate(roots, env, ufenv=None):
    """Concrete double evaluation; env: name -> float (bools for boolean variables)."""
    val = {}
    for n in topo(roots):
        val[n.id] = _ev(n, [val[a.id] if isinstance(a, (Sym, SymBool)) else a for a in n.args],
                        env, ufenv)
    return [val[r.id] if isinstance(r, (Sym, SymBool)) else r for r in roots]


def _ev(n, a, env, ufenv):
    op = n.op
    try:
        if isinstance(n, SymBool):
            if op == 'true':
                return True
            if op == 'false':
                return False
            if op == 'bv':
                return bool(env[n.args[0]])
            if op == 'lt':
                return a[0] < a[1]
            if op == 'eq':
                return a[0] == a[1]
            if op == 'not':
                return not a[0]
            if op == 'and':
                return all(a)
        if op == 'c':
            return float(n.args[0])
        if op == 'v':
            return float(env[n.args[0]])
        if op == 'add':
            return a[0] + a[1]
        if op == 'mul':
            return a[0] * a[1]
        if op == 'div':
            return a[0] / a[1]
        if op == 'pow':
            return a[0] ** a[1]
        if op == 'powr':
            return a[0] ** float(a[1])
        if op == 'ite':
            return a[1] if a[0] else a[2]
        if op == 'max':
            return max(a)
        if op == 'dmax':
            m = n.args[0]
            i = int(n.args[1].args[0])
            vals = evaluate(list(m.args), env, ufenv)
            return 1. if vals[i] == max(vals) and vals.index(max(vals)) == i else 0.
        if op.startswith('U:'):
            return ufenv[op[2:]](*a)
        name = op[2:]
        if name.startswith('root'):
            return a[0] ** (1. / int(name[4:]))
        return {'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log,
                'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
                'floor': lambda x: float(math.floor(x))}[name](a[0])
    except (ZeroDivisionError, ValueError, OverflowError):
        return float('nan')
    except TypeError:
        if any(isinstance(x, complex) for x in a):
            return float('nan')
        raise


# --------------------------------------------------------------------------- exploration
class PathAbort(BaseException):
    """Raised to abandon an infeasible or cut path."""


class Explorer(object):
    """Depth-first enumeration of the feasible paths of a function by re-execution."""
    current = None

    def __init__(self, checker, max_paths=4000):
        self.checker = checker          # checker(list of SymBool) -> 'sat'|'unsat'|'unknown'
        self.max_paths = max_paths
        self.branches = 0
        self.paths = 0
        self.truncated = False

    def run(self, fn, assumptions=()):
        """Yield (result, path_condition) for every feasible path of fn()."""
        work = [[]]
        while work:
            if self.paths >= self.max_paths:
                self.truncated = True
                return
            # a path is what is known on it: the order of the branches may differ from one
            # execution to the next (models are built anew)
            self.pc = list(assumptions) + work.pop()
            self.base = len(assumptions)
            self.work = work
            prev = Explorer.current
            Explorer.current = self
            try:
                try:
                    res = ('ok', fn())
                except PathAbort:
                    continue
                except Unencodable:
                    raise
                except SystemExit as e:
                    res = ('exit', e)
                except Exception as e:
                    res = ('exc', e)
            finally:
                Explorer.current = prev
            self.paths += 1
            yield res, list(self.pc)

    def decide(self, cond):
        neg = bnot(cond)
        # already known on the path?
        if any(c is cond for c in self.pc):
            return True
        if any(c is neg for c in self.pc):
            return False
        self.branches += 1
        rt = self.checker(self.pc + [cond])
        rf = self.checker(self.pc + [neg])
        if rt == 'unsat' and rf == 'unsat':
            raise PathAbort()
        if rt == 'unsat':
            choice = False
        elif rf == 'unsat':
            choice = True
        else:
            self.work.append(self.pc[self.base:] + [neg])
            choice = True
        self.pc.append(cond if choice else neg)
        return choice
