"""Symbolic execution of code that turns integers into text.

The source of the module under test is read, subscripts, `int`, `len`, `join`, ... are redirected
to helpers, and the functions run on integers and characters that are terms of an SMT solver.
Branches fork; every path is kept with its condition.
"""
import ast
import builtins
import inspect
import time

from . import solve as S
from .expr import Unencodable

z3 = S.z3
EXACT = 2 ** 46              # quotients of integers below this are exact after truncation


def check(conds, timeout=60000):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*conds)
    t0 = time.time()
    r = str(s.check())
    S.STATS.add(r, time.time() - t0)
    return r, (s.model() if r == 'sat' else None)


class Abort(BaseException):
    pass


class Paths(object):
    """all feasible paths of a function by execution again and again"""
    current = None

    def __init__(self, limit=2000, steps=20000):
        self.limit = limit
        self.count = 0
        self.fresh = 0
        self.steps = steps

    def run(self, fn, assume):
        work = [[]]
        while work:
            if self.count >= self.limit:
                raise Unencodable('more than %d paths' % self.limit)
            self.todo = work.pop()
            self.done = []
            self.pc = list(assume)
            self.work = work
            self.memo = {}
            self.forks = 0
            prev, Paths.current = Paths.current, self
            try:
                try:
                    res = ('ok', fn())
                except (Unencodable, Abort):
                    raise
                except Exception as e:
                    res = ('exc', e)
            except Abort:
                continue
            finally:
                Paths.current = prev
            self.count += 1
            yield res, list(self.pc)

    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.forks += 1
        if self.forks > 200:
            raise Unencodable('a path of more than 200 branches')
        if self.todo:
            c = self.todo.pop(0)
        else:
            t = check(self.pc + [cond])[0] != 'unsat'
            f = check(self.pc + [z3.Not(cond)])[0] != 'unsat'
            if not t and not f:
                raise Abort()
            c = t
            if t and f:
                self.work.append(self.done + [False])
        self.done.append(c)
        self.pc.append(cond if c else z3.Not(cond))
        return c

    def divmod(self, a, k):
        key = (a.get_id(), k)
        if key not in self.memo:
            self.fresh += 1
            q, r = z3.Int('q%d!%d' % (self.fresh, self.count)), z3.Int('r%d!%d' % (self.fresh,
                                                                                 self.count))
            self.pc += [a == k * q + r, r >= 0, r < k]
            self.memo[key] = (q, r, a)
        return self.memo[key][:2]

    def implied(self, cond):
        return check(self.pc + [z3.Not(cond)])[0] == 'unsat'


def cur():
    if Paths.current is None:
        raise Unencodable('no symbolic execution under way')
    return Paths.current


def lift(x):
    if type(x) is ZInt:
        return x.e
    if isinstance(x, bool) or isinstance(x, builtins.int):
        return z3.IntVal(builtins.int(x))
    return None


class ZBool(object):
    __slots__ = ('e',)
    __class__ = property(lambda s: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().fork(self.e)


class ZInt(object):
    __slots__ = ('e',)
    __class__ = property(lambda s: builtins.int)

    def __init__(self, e):
        self.e = z3.simplify(e)

    def concrete(self):
        return self.e.as_long() if z3.is_int_value(self.e) else None

    def _bin(self, o, f):
        b = lift(o)
        return NotImplemented if b is None else ZInt(f(self.e, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (builtins.str, Text)) or lift(o) is None:
            raise Unencodable('repetition')
        if type(o) is ZInt and o.concrete() is None and self.concrete() is None:
            raise Unencodable('product of symbolic integers')
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return ZInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self

    def _k(self, o):
        k = o.concrete() if type(o) is ZInt else o
        if isinstance(k, builtins.int) and k > 0:
            return k
        raise Unencodable('division by %r' % (o,))

    def __mod__(self, o): return ZInt(cur().divmod(self.e, self._k(o))[1])
    def __floordiv__(self, o): return ZInt(cur().divmod(self.e, self._k(o))[0])

    def __divmod__(self, o):
        q, r = cur().divmod(self.e, self._k(o))
        return ZInt(q), ZInt(r)

    def __truediv__(self, o): return ZQuot(self.e, self._k(o))

    def __rshift__(self, o): return self // 2 ** o
    def __lshift__(self, o): return self * 2 ** o

    def __and__(self, o):
        if isinstance(o, builtins.int) and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        raise Unencodable('bitwise and')

    def __pow__(self, o): raise Unencodable('power')
    __rpow__ = __pow__

    def _cmp(self, o, f):
        b = lift(o)
        return NotImplemented if b is None else ZBool(f(self.e, b))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return cur().fork(self.e != 0)

    def __hash__(self): raise Unencodable('hash of a symbolic integer')

    def __index__(self):
        c = self.concrete()
        if c is None:
            raise Unencodable('a symbolic integer is used as a number')
        return c
    __int__ = __index__

    def __float__(self): raise Unencodable('float of a symbolic integer')
    def __str__(self): raise Unencodable('text of a symbolic integer')
    def __format__(self, s): raise Unencodable('text of a symbolic integer')
    def __repr__(self): return '<%s>' % self.e


class ZQuot(object):
    """n / k in floating point; truncation is exact while n is not negative and small enough"""

    def __init__(self, n, k):
        self.n, self.k = n, k

    def trunc(self):
        if not cur().implied(z3.And(self.n >= 0, self.n < EXACT)) or self.k > 4096:
            raise Unencodable('quotient out of the range in which truncation is exact')
        return ZInt(cur().divmod(self.n, self.k)[0])

    def __floordiv__(self, o): raise Unencodable('quotient')
    __add__ = __sub__ = __mul__ = __truediv__ = __floordiv__


class Char(object):
    """one character: a table and a symbolic position in it, or a symbolic code"""
    __slots__ = ('table', 'pos')

    def __init__(self, table, pos):
        self.table, self.pos = table, pos

    def is_(self, c):
        if self.table is None:
            return self.pos == ord(c)
        return z3.Or(*[self.pos == i for i, t in enumerate(self.table) if t == c])

    def within(self, allowed):
        if self.table is None:
            return z3.Or(*[self.pos == ord(c) for c in allowed])
        return z3.And(self.pos >= 0, self.pos < len(self.table),
                      *[self.pos != i for i, t in enumerate(self.table) if t not in allowed])

    def same(self, o):
        if isinstance(o, builtins.str):
            return self.is_(o)
        if self.table is None and o.table is None:
            return self.pos == o.pos
        if self.table is None:
            return o.same(self)
        if o.table is None:
            return z3.Or(*[z3.And(self.pos == i, o.pos == ord(t))
                           for i, t in enumerate(self.table)])
        if self.table == o.table and len(set(self.table)) == len(self.table):
            return self.pos == o.pos
        return z3.Or(*[z3.And(self.pos == i, o.pos == j) for i, t in enumerate(self.table)
                       for j, u in enumerate(o.table) if t == u])

    def value(self, m):
        i = m.eval(self.pos, model_completion=True).as_long()
        return chr(i) if self.table is None else self.table[i]


def chars(x):
    if type(x) is Text:
        return x.chars
    if isinstance(x, builtins.str):
        return list(x)
    return None


class Text(object):
    __slots__ = ('chars',)
    __class__ = property(lambda s: builtins.str)

    def __init__(self, cs):
        self.chars = list(cs)

    def __add__(self, o):
        c = chars(o)
        return NotImplemented if c is None else Text(self.chars + c)

    def __radd__(self, o):
        c = chars(o)
        return NotImplemented if c is None else Text(c + self.chars)

    def __len__(self): return len(self.chars)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Text(self.chars[k])
        return Text([self.chars[k.__index__()]])

    def __iter__(self): return iter([Text([c]) for c in self.chars])
    def zfill(self, n): return self.rjust(n, '0')
    def rjust(self, n, f=' '): return Text([f] * max(0, n - len(self.chars)) + self.chars)
    def ljust(self, n, f=' '): return Text(self.chars + [f] * max(0, n - len(self.chars)))

    def __eq__(self, o):
        c = chars(o)
        return NotImplemented if c is None else ZBool(same(self, o))

    def __ne__(self, o):
        c = chars(o)
        return NotImplemented if c is None else ZBool(z3.Not(same(self, o)))

    def __hash__(self):
        # text that no string without \0 equals: comparing decides
        if '\0' in [c for c in self.chars if isinstance(c, builtins.str)]:
            return 1
        raise Unencodable('hash of symbolic text')
    def __str__(self): raise Unencodable('symbolic text becomes a string')
    def __format__(self, s): raise Unencodable('symbolic text becomes a string')
    def __repr__(self): return "<text of %d characters>" % len(self.chars)

    def __getattr__(self, n):
        raise Unencodable('str.%s of symbolic text' % n)


def same(a, b):
    a, b = chars(a), chars(b)
    if len(a) != len(b):
        return z3.BoolVal(False)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, builtins.str) and isinstance(y, builtins.str):
            if x != y:
                return z3.BoolVal(False)
        elif isinstance(x, builtins.str):
            out.append(y.same(x))
        else:
            out.append(x.same(y))
    return z3.And(*out) if out else z3.BoolVal(True)


def value(t, m):
    return ''.join(c if isinstance(c, builtins.str) else c.value(m) for c in chars(t))


# ------------------------------------------------------------------------ redirected builtins
def _sub(o, k):
    if type(k) is ZInt and k.concrete() is None:
        if isinstance(o, builtins.str) and type(o) is not Text:
            n = len(o)
            table = o
        elif isinstance(o, (list, tuple)) and all(type(c) is builtins.str and len(c) == 1
                                                  for c in o):
            n = len(o)
            table = ''.join(o)
        else:
            raise Unencodable('symbolic index into %s' % type(o).__name__)
        if k < 0:
            k = k + n
        if k < 0 or k >= n:
            raise IndexError('index out of range')
        return Text([Char(table, k.e)])
    if isinstance(k, slice):
        k = slice(*[x.__index__() if type(x) is ZInt else x for x in (k.start, k.stop, k.step)])
    return o[k]


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __call__(cls, *a):
        return cls.make(*a)


class _int(metaclass=_Meta):
    real = builtins.int

    @staticmethod
    def make(x=0, *a):
        if type(x) is ZInt:
            return x
        if type(x) is ZQuot:
            return x.trunc()
        if type(x) is Text:
            raise Unencodable('int of symbolic text')
        return builtins.int(x, *a)


class _str(metaclass=_Meta):
    real = builtins.str

    @staticmethod
    def make(x=''):
        return x if type(x) is Text else builtins.str(x)


def _divmod(a, b):
    return a.__divmod__(b) if type(a) is ZInt else divmod(a, b)


def _chr(x):
    return Text([Char(None, x.e)]) if type(x) is ZInt and x.concrete() is None else chr(x)


def _join(s, it):
    if not isinstance(s, builtins.str):
        return s.join(it)
    out = []
    for n, x in enumerate(it):
        if n:
            out += chars(s)
        c = chars(x)
        if c is None:
            raise TypeError('expected str')
        out += c
    return Text(out)


def _fmt(*parts):
    return _join('', [p if isinstance(p, builtins.str) else builtins.str(p) for p in parts])


def _len(x):
    return len(x.chars) if type(x) is Text else len(x)


class _Rewrite(ast.NodeTransformer):
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        k = n.slice
        if isinstance(k, ast.Slice):
            none = ast.Constant(None)
            k = ast.Call(ast.Name('slice', ast.Load()),
                         [k.lower or none, k.upper or none, k.step or none], [])
        return ast.copy_location(ast.Call(ast.Name('__sub', ast.Load()), [n.value, k], []), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1:
            return ast.copy_location(ast.Call(ast.Name('__join', ast.Load()),
                                              [n.func.value] + n.args, []), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    return n
                parts.append(v.value)
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name('__fmt', ast.Load()), parts, []), n)


def encode(module):
    """the namespace of a module whose functions accept symbolic integers"""
    src = inspect.getsource(module)
    tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(src)))
    import math

    class M(object):
        def __getattr__(self, n):
            return getattr(math, n)
        floor = staticmethod(lambda x: x.trunc() if type(x) is ZQuot else
                             x if type(x) is ZInt else math.floor(x))
    ns = {'__name__': module.__name__ + '!symbolic', '__sub': _sub, '__join': _join,
          '__fmt': _fmt, 'int': _int, 'str': _str, 'divmod': _divmod, 'chr': _chr, 'len': _len}
    exec(compile(tree, module.__file__, 'exec'), ns)
    for k, v in list(ns.items()):
        if v is math:
            ns[k] = M()
        elif v is math.floor:
            ns[k] = M.floor
    return ns
