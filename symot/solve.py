"""Encoding of symbolic terms into SMT (nonlinear real arithmetic) and queries.

Every term is encoded as a fraction num/den of polynomials over variables and atoms; an
atom is an application of sin, cos, exp, log, a root, ... whose argument is brought into a
canonical form, so that equal arguments give the same atom.  Atom axioms are instantiated
per query.  Everything not pinned down by an axiom is arbitrary (sound for `unsat`).
"""
import sys
import time
import math
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from . import expr as E  # noqa: E402
from .expr import Sym, SymBool, Unencodable  # noqa: E402

z3.set_param('memory_max_size', 6000)


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.
        self.results = {'sat': 0, 'unsat': 0, 'unknown': 0}
        self.syntactic = 0
        self.max_query = 0.

    def add(self, res, dt):
        self.queries += 1
        self.time += dt
        self.max_query = max(self.max_query, dt)
        self.results[res] += 1

    def merge(self, d):
        self.queries += d['queries']
        self.time += d['time']
        self.max_query = max(self.max_query, d['max_query'])
        self.syntactic += d['syntactic']
        for k in d['results']:
            self.results[k] += d['results'][k]

    def as_dict(self):
        return {'queries': self.queries, 'time': self.time, 'results': dict(self.results),
                'syntactic': self.syntactic, 'max_query': self.max_query}


STATS = Stats()


# --------------------------------------------------------------------------- polynomials
def p_const(c):
    return {(): c} if c else {}


def p_atom(k):
    return {((k, 1),): Fraction(1)}


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    if len(a) * len(b) > 4000:
        raise PolyTooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s:
                r[m] = s
            else:
                r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


class PolyTooBig(Exception):
    pass


ONEP = p_const(Fraction(1))


def p_key(p):
    return tuple(sorted(p.items()))


class Encoder(object):
    """One encoding context (shared by the terms of a query)."""

    def __init__(self, abstract_even=False):
        # abstract_even: an even power is some number that is not negative, zero with its base
        self.abstract_even = abstract_even
        self.zvars = {}
        self.atoms = {}         # key -> z3 var
        self.atom_ids = {}      # key -> small int (ordering of polynomial atoms)
        self.atom_info = {}     # key -> info
        self.axioms = []
        self.pf = {}            # node id -> (num poly, den poly)
        self.zf = {}            # node id -> (z num, z den)
        self.zb = {}
        self.exp_units = {}     # monomial -> {abs coeff: z3 var}
        self.ufs = {}
        self.keep = []

    # ---- z3 leaves
    def real(self, name):
        v = self.zvars.get(name)
        if v is None:
            v = z3.Real(name)
            self.zvars[name] = v
        return v

    def atom(self, key, make=None):
        v = self.atoms.get(key)
        if v is None:
            self.atom_ids[key] = len(self.atom_ids)
            v = z3.Real('@%s_%d' % (key[0] if isinstance(key, tuple) else key, len(self.atoms)))
            self.atoms[key] = v
            if make:
                make(v)
        return v

    def aid(self, key):
        self.atom(key)
        return self.atom_ids[key]

    # ---- canonical fractions of polynomials (python side, for atom arguments only)
    def poly(self, root):
        for n in E.topo([root]):
            if isinstance(n, SymBool) or n.id in self.pf:
                continue
            self.keep.append(n)
            self.pf[n.id] = self._poly1(n)
        return self.pf[root.id]

    def _poly1(self, n):
        op = n.op
        if op == 'c':
            return p_const(n.args[0]), ONEP
        if op == 'v':
            return p_atom(('v', n.args[0])), ONEP
        if op in ('add', 'mul', 'div'):
            (an, ad), (bn, bd) = self.pf[n.args[0].id], self.pf[n.args[1].id]
            try:
                if op == 'add':
                    if ad == bd:
                        return p_add(an, bn), ad
                    return p_add(p_mul(an, bd), p_mul(bn, ad)), p_mul(ad, bd)
                if op == 'mul':
                    return self._red(p_mul(an, bn), p_mul(ad, bd))
                return self._red(p_mul(an, bd), p_mul(ad, bn))
            except PolyTooBig:
                return p_atom(('node', n.id)), ONEP
        if op == 'pow':
            an, ad = self.pf[n.args[0].id]
            rn, rd = ONEP, ONEP
            try:
                for _ in range(n.args[1]):
                    rn, rd = p_mul(rn, an), p_mul(rd, ad)
            except PolyTooBig:
                return p_atom(('node', n.id)), ONEP
            return rn, rd
        if op == 'f:exp':
            rn, rd = ONEP, ONEP
            for mono, c in self.exp_terms(n.args[0]):
                k = ('exp', mono, abs(c))
                if c > 0:
                    rn = p_mul(rn, p_atom(k))
                else:
                    rd = p_mul(rd, p_atom(k))
            return rn, rd
        if op in ('f:sin', 'f:cos', 'f:asin', 'f:atan'):
            key, sgn = self.arg_key(n.args[0])
            if not key[0]:                       # the argument is identically zero
                return p_const(Fraction(int(op == 'f:cos'))), ONEP
            k = (op[2:], key)
            return p_scale(p_atom(k), Fraction(sgn if op != 'f:cos' else 1)), ONEP
        if op == 'f:log':
            return self._poly_log(n)
        if op.startswith('f:') or op == 'powr':
            key = self.raw_key(n.args[0])
            k = (op[2:] if op != 'powr' else 'powr%s' % n.args[1], key)
            return p_atom(k), ONEP
        if op == 'max':
            return p_atom(self.max_key(n)), ONEP
        return p_atom(('node', n.id)), ONEP

    def _red(self, n, d):
        """cancel a common monomial"""
        if len(d) == 1 and n:
            (dm, dc), = d.items()
            if dm:
                common = dict(dm)
                for m in n:
                    e = dict(m)
                    common = {k: min(v, e.get(k, 0)) for k, v in common.items()}
                    common = {k: v for k, v in common.items() if v > 0}
                    if not common:
                        break
                if common:
                    inv = tuple((k, -v) for k, v in common.items())
                    n = {m_mul(m, inv): c for m, c in n.items()}
                    d = {m_mul(dm, inv): dc}
        return n, d

    def norm_frac(self, n, d):
        """normal form up to scaling: denominator's leading coefficient 1"""
        if not n:
            return (), p_key(ONEP)
        lead = d[max(d)] if d else Fraction(1)
        n = p_scale(n, 1 / lead)
        d = p_scale(d, 1 / lead)
        return p_key(n), p_key(d)

    def raw_key(self, a):
        return self.norm_frac(*self.poly(a))

    def arg_key(self, a):
        n, d = self.poly(a)
        sgn = 1
        if n:
            lead = d[max(d)]
            if n[max(n)] / lead < 0:
                n = p_scale(n, Fraction(-1))
                sgn = -1
        return self.norm_frac(n, d), sgn

    def max_key(self, n):
        return ('max', tuple(sorted(set(self.raw_key(x) for x in n.args))))

    def exp_terms(self, a):
        """exp(a) = prod exp(c*m): list of (monomial key, c)"""
        n, d = self.poly(a)
        if len(d) == 1 and () in d:
            return sorted((m, c / d[()]) for m, c in n.items())
        # a sum with quotients: addends over the same denominator stay together
        groups = {}
        todo = [(Fraction(1), a)]
        while todo:
            f, t = todo.pop()
            if t.op == 'add':
                todo.extend((f, u) for u in t.args)
                continue
            if t.op in ('mul', 'div') and t.args[1].op == 'c' and t.args[1].args[0]:
                c = t.args[1].args[0]
                todo.append((f * c if t.op == 'mul' else f / c, t.args[0]))
                continue
            if t.op == 'mul' and t.args[0].op == 'c':
                todo.append((f * t.args[0].args[0], t.args[1]))
                continue
            tn, td = self._red(*self.poly(t))
            if not tn or not f:
                continue
            lead = td[max(td)]
            tn, td = p_scale(tn, f / lead), p_scale(td, 1 / lead)
            k = p_key(td)
            groups[k] = p_add(groups[k], tn) if k in groups else tn
        out = {}
        for k, tn in groups.items():
            if k == p_key(ONEP):
                for m, c in tn.items():
                    out[m] = out.get(m, 0) + c
            elif tn:
                lead = tn[max(tn)]
                m = ((('frac', (p_key(p_scale(tn, 1 / lead)), k)), 1),)
                out[m] = out.get(m, 0) + lead
        return sorted((m, Fraction(c)) for m, c in out.items() if c)

    # ---- logs
    def log_parts(self, a):
        """log(a) = log(coeff) + linear part + rest: returns (coeff, [(mono,c)], restkey)"""
        n, d = self.poly(a)
        n, d = self._red(n, d)
        if len(d) != 1 or not n:
            return None
        (dm, dc), = d.items()
        if dc < 0:
            n, dc = p_scale(n, Fraction(-1)), -dc
        if not all(k[0] == 'exp' for k, e in dm):
            return None
        # monomial of exponentials common to the numerator
        common = None
        for m in n:
            e = {k: x for k, x in m if k[0] == 'exp'}
            if common is None:
                common = e
            else:
                common = {k: min(v, e[k]) for k, v in common.items() if k in e}
        common = common or {}
        inv = tuple(sorted((k, -v) for k, v in common.items()))
        rest = {m_mul(m, inv): c for m, c in n.items()}
        lin = {}
        for k, e in common.items():
            lin[k[1]] = lin.get(k[1], 0) + e * k[2]
        for k, e in dm:
            lin[k[1]] = lin.get(k[1], 0) - e * k[2]
        lead = rest[max(rest)]
        coeff = abs(lead) / dc
        rest = p_scale(rest, 1 / abs(lead))
        return coeff, sorted((m, c) for m, c in lin.items() if c), rest

    def _poly_log(self, n):
        parts = self.log_parts(n.args[0])
        if parts is None:
            return p_atom(('log', self.raw_key(n.args[0]))), ONEP
        coeff, lin, rest = parts
        r = {}
        if coeff != 1:
            r = p_const(E.to_fraction(math.log(float(coeff))))
        den = ONEP
        for m, c in lin:
            if len(m) == 1 and m[0][0][0] == 'frac':
                fn, fd = (dict(k) for k in m[0][0][1])
                try:
                    r, den = self._red(p_add(p_mul(r, fd), p_scale(p_mul(fn, den), Fraction(c))),
                                       p_mul(den, fd))
                except PolyTooBig:
                    return p_atom(('node', n.id)), ONEP
            else:
                r = p_add(r, p_mul({m: Fraction(c)}, den))
        if rest != ONEP:
            r = p_add(r, p_mul(p_atom(('log', (p_key(rest), p_key(ONEP)))), den))
        return r, den

    # ---- z3 terms
    def frac(self, root):
        for n in E.topo([root]):
            if n.id in self.zf or n.id in self.zb:
                continue
            self.keep.append(n)
            if isinstance(n, SymBool):
                self.zb[n.id] = self._bool1(n)
            else:
                self.zf[n.id] = self._frac1(n)
        return self.zf[root.id]

    def boolean(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        for n in E.topo([b]):
            if n.id in self.zf or n.id in self.zb:
                continue
            self.keep.append(n)
            if isinstance(n, SymBool):
                self.zb[n.id] = self._bool1(n)
            else:
                self.zf[n.id] = self._frac1(n)
        return self.zb[b.id]

    def _bool1(self, n):
        if n.op == 'true':
            return z3.BoolVal(True)
        if n.op == 'false':
            return z3.BoolVal(False)
        if n.op == 'bv':
            return z3.Bool(n.args[0])
        if n.op == 'not':
            return z3.Not(self.zb[n.args[0].id])
        if n.op == 'and':
            return z3.And(*[self.zb[a.id] for a in n.args])
        (an, ad), (bn, bd) = self.zf[n.args[0].id], self.zf[n.args[1].id]
        diff = an * bd - bn * ad if not (is1(ad) and is1(bd)) else an - bn
        if n.op == 'eq':
            return diff == 0
        if is1(ad) and is1(bd):
            return diff < 0
        return diff * (ad * bd) < 0

    def value(self, root):
        """z3 term equal to the fraction (introduces a quotient variable if needed)"""
        n, d = self.frac(root)
        return self._val(n, d)

    def _val(self, n, d):
        if is1(d):
            return n
        key = ('quot', n.get_id(), d.get_id())
        self.keep.append((n, d))

        def mk(v):
            self.axioms.append(z3.Implies(d != 0, v * d == n))
        return self.atom(key, mk)

    def _frac1(self, n):
        op = n.op
        if op == 'c':
            return q(n.args[0]), ONEZ
        if op == 'v':
            return self.real(n.args[0]), ONEZ
        if op == 'add':
            (an, ad), (bn, bd) = self.zf[n.args[0].id], self.zf[n.args[1].id]
            if ad.eq(bd):
                return an + bn, ad
            if is1(ad):
                return an * bd + bn, bd
            if is1(bd):
                return an + bn * ad, ad
            return an * bd + bn * ad, ad * bd
        if op == 'mul':
            (an, ad), (bn, bd) = self.zf[n.args[0].id], self.zf[n.args[1].id]
            return zmul(an, bn), zmul(ad, bd)
        if op == 'div':
            (an, ad), (bn, bd) = self.zf[n.args[0].id], self.zf[n.args[1].id]
            return zmul(an, bd), zmul(ad, bn)
        if op == 'pow':
            an, ad = self.zf[n.args[0].id]
            if self.abstract_even and n.args[1] % 2 == 0:
                def mke(v):
                    self.axioms.append(v >= 0)
                    self.axioms.append((v == 0) == (an == 0))
                return self.atom(('even', n.id), mke), ONEZ
            return zpow(an, n.args[1]), (ONEZ if is1(ad) else zpow(ad, n.args[1]))
        if op == 'ite':
            c = self.zb[n.args[0].id]
            (an, ad), (bn, bd) = self.zf[n.args[1].id], self.zf[n.args[2].id]
            if ad.eq(bd):
                return z3.If(c, an, bn), ad
            return z3.If(c, self._val(an, ad), self._val(bn, bd)), ONEZ
        if op == 'max':
            k = self.max_key(n)

            def mk(v):
                vals = [self._val(*self.zf[a.id]) for a in n.args]
                for a in vals:
                    self.axioms.append(v >= a)
                self.axioms.append(z3.Or(*[v == a for a in vals]))
            return self.atom(k, mk), ONEZ
        if op == 'dmax':
            m = n.args[0]
            i = int(n.args[1].args[0])
            k = ('dmax', self.max_key(m), self.raw_key(m.args[i]))
            return self.atom(k), ONEZ
        if op.startswith('U:'):
            name = op[2:]
            f = self.ufs.get((name, len(n.args)))
            if f is None:
                f = z3.Function('U_' + name, *([z3.RealSort()] * (len(n.args) + 1)))
                self.ufs[(name, len(n.args))] = f
            return f(*[self._val(*self.zf[a.id]) for a in n.args]), ONEZ
        if op == 'f:exp':
            rn, rd = ONEZ, ONEZ
            for mono, c in self.exp_terms(n.args[0]):
                v = self.exp_atom(mono, abs(c))
                if c > 0:
                    rn = zmul(rn, v)
                else:
                    rd = zmul(rd, v)
            return rn, rd
        if op in ('f:sin', 'f:cos'):
            key, sgn = self.arg_key(n.args[0])
            if not key[0]:
                return q(int(op == 'f:cos')), ONEZ
            s, c = self.atom(('sin', key)), None
            first = ('cos', key) not in self.atoms
            c = self.atom(('cos', key))
            if first:
                self.axioms.append(s * s + c * c == 1)
            if op == 'f:sin':
                return (s if sgn > 0 else -s), ONEZ
            return c, ONEZ
        if op in ('f:asin', 'f:atan'):
            key, sgn = self.arg_key(n.args[0])
            if not key[0]:
                return q(0), ONEZ
            v = self.atom((op[2:], key))
            return (v if sgn > 0 else -v), ONEZ
        if op == 'f:log':
            parts = self.log_parts(n.args[0])
            if parts is None:
                return self.atom(('log', self.raw_key(n.args[0]))), ONEZ
            coeff, lin, rest = parts
            r = q(E.to_fraction(math.log(float(coeff)))) if coeff != 1 else None
            for m, c in lin:
                t = q(c) * self.zmono(m)
                r = t if r is None else r + t
            if rest != ONEP:
                def mkl(v):
                    self._log_axioms(v, rest)
                v = self.atom(('log', (p_key(rest), p_key(ONEP))), mkl)
                r = v if r is None else r + v
            return (r if r is not None else q(0)), ONEZ
        if op.startswith('f:root'):
            qd = int(op[6:])
            k = (op[2:], self.raw_key(n.args[0]))
            an, ad = self.zf[n.args[0].id]

            def mk(v):
                self.axioms.append(v >= 0)
                arg = zmul(zpow(v, qd), ad) == an
                nonneg = an * ad >= 0 if not is1(ad) else an >= 0
                self.axioms.append(z3.Implies(nonneg, arg))
            return self.atom(k, mk), ONEZ
        if op == 'f:floor':
            a = self._val(*self.zf[n.args[0].id])

            def mkfl(v):
                i = z3.Int('floor %d' % len(self.atoms))
                self.axioms += [v == z3.ToReal(i), v <= a, a < v + 1]
            return self.atom(('floor', self.raw_key(n.args[0])), mkfl), ONEZ
        if op.startswith('f:') or op == 'powr':
            k = (op[2:] if op != 'powr' else 'powr%s' % n.args[1], self.raw_key(n.args[0]))

            def mkp(v):
                if op == 'powr':
                    an, ad = self.zf[n.args[0].id]
                    self.axioms.append(z3.Implies(an * ad > 0, v > 0))
            return self.atom(k, mkp), ONEZ
        raise Unencodable('no encoding of %s' % op)

    def zmono(self, m):
        r = None
        for k, e in m:
            t = zpow(self.zatom(k), e)
            r = t if r is None else r * t
        return r if r is not None else q(1)

    def zatom(self, k):
        if k[0] == 'v':
            return self.real(k[1])
        if k[0] == 'exp':
            return self.exp_atom(k[1], k[2])
        if k[0] == 'frac':
            t, u = [self.zpoly(dict(p)) for p in k[1]]

            def mkf(v):
                self.axioms.append(z3.Implies(u != 0, v * u == t))
            return self.atom(k, mkf)
        if k in self.atoms:
            return self.atoms[k]
        if k[0] == 'node':
            raise Unencodable('node atom inside a logarithm')
        return self.atom(k)

    def zpoly(self, p):
        r = q(0)
        for m, c in p.items():
            r = r + q(c) * self.zmono(m)
        return r

    def _log_axioms(self, v, rest):
        # log t <= t - 1 ; log t >= 1 - 1/t ; sign
        t = self.zpoly(rest)
        self.axioms.append(z3.Implies(t > 0, v <= t - 1))
        self.axioms.append(z3.Implies(t > 1, v > 0))
        self.axioms.append(z3.Implies(z3.And(t > 0, t < 1), v < 0))
        self.axioms.append(z3.Implies(t == 1, v == 0))

    def exp_atom(self, mono, c):
        units = self.exp_units.setdefault(mono, {})
        k = ('exp', mono, c)
        if c not in units:
            def mk(v):
                self.axioms.append(v > 0)
                for c2, v2 in units.items():
                    r = c / c2
                    if r.denominator == 1 and 1 < r <= 8:
                        self.axioms.append(v == zpow(v2, int(r)))
                    r = c2 / c
                    if r.denominator == 1 and 1 < r <= 8:
                        self.axioms.append(v2 == zpow(v, int(r)))
            v = self.atom(k, mk)
            units[c] = v
        return units[c]

    def exp_axioms(self, monotone=True):
        """exp is increasing, exp(t) >= 1+t (needed for inequalities only)"""
        ax = []
        items = []
        for mono, units in list(self.exp_units.items()):
            if any(k[0] == 'frac' for k, _ in mono):
                continue
            t = self.zmono(mono)
            for c, v in units.items():
                ax.append(v >= 1 + q(c) * t)
                items.append((q(c) * t, v))
        if monotone:
            for i in range(len(items)):
                for j in range(i):
                    ax.append(z3.Implies(items[i][0] <= items[j][0], items[i][1] <= items[j][1]))
                    ax.append(z3.Implies(items[i][0] >= items[j][0], items[i][1] >= items[j][1]))
        return ax


ONEZ = z3.RealVal(1)


def is1(z):
    return z.eq(ONEZ)


def q(f):
    f = Fraction(f)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f != 1 else ONEZ


def zmul(a, b):
    if is1(a):
        return b
    if is1(b):
        return a
    return a * b


def zpow(a, n):
    if n == 1:
        return a
    if is1(a):
        return a
    r = a
    for _ in range(n - 1):
        r = r * a
    return r


# --------------------------------------------------------------------------- queries
def _check(assertions, timeout, want_model=False):
    t0 = time.time()
    has_uf = False
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*assertions)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    res = str(r)
    m = s.model() if r == z3.sat and want_model else None
    if r == z3.unknown:
        try:
            t = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat')
            s2 = t.solver()
            s2.set('timeout', int(timeout * 1000))
            s2.add(*assertions)
            r = s2.check()
            res = str(r)
            m = s2.model() if r == z3.sat and want_model else None
        except z3.Z3Exception:
            res = 'unknown'
    dt = time.time() - t0
    STATS.add(res, dt)
    return res, m


def _zval(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        y = x.approx(20)
        return float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
    return 0.0


def model_env(enc, m):
    if m is None:
        return {}
    return {name: _zval(m, v) for name, v in enc.zvars.items()}


def path_checker(timeout=5.):
    def chk(conds):
        enc = Encoder()
        zs = [enc.boolean(c) for c in conds]
        r, _ = _check(zs + enc.axioms, timeout)
        return r
    return chk


def satisfiable(conds, timeout=10.):
    enc = Encoder()
    zs = [enc.boolean(c) for c in conds]
    r, m = _check(zs + enc.axioms, timeout, want_model=True)
    return r, model_env(enc, m)


class Result(object):
    def __init__(self, status, env=None, detail='', which=None):
        self.status = status      # 'holds' | 'violated' | 'unknown'
        self.env = env or {}
        self.detail = detail
        self.which = which


def equal_all(pairs, hyps, timeout=20., tol=None, labels=None):
    """forall values satisfying hyps: a == b for all pairs."""
    todo = []
    labels = labels or list(range(len(pairs)))
    for (a, b), lab in zip(pairs, labels):
        a, b = E.lift(a), E.lift(b)
        if a is b and tol is None:
            STATS.syntactic += 1      # still handed to the solver below, as a trivial clause
        todo.append((a, b, lab))
    enc = Encoder()
    hy = [enc.boolean(h) for h in hyps]
    diffs = []
    dens = {}
    for a, b, lab in todo:
        an, ad = enc.frac(a)
        bn, bd = enc.frac(b)
        for d in (ad, bd):
            if not is1(d):
                dens[d.get_id()] = d
        if tol is None:
            if ad.eq(bd):
                d = an - bn
            else:
                d = zmul(an, bd) - zmul(bn, ad)
            d = z3.simplify(d, som=True)
            diffs.append((d != 0, lab, a, b))
        else:
            A, B = enc._val(an, ad), enc._val(bn, bd)
            D = A - B
            scale = tol * (1 + z3.If(B < 0, -B, B))
            diffs.append((z3.Or(D > scale, -D > scale), lab, a, b))
    live = [(z, lab, a, b) for z, lab, a, b in diffs if not z3.is_false(z3.simplify(z))]
    if not live:
        # the whole disjunction is trivially false: one (cheap) solver call confirms it
        r, _ = _check([z3.Or(*[z for z, _, _, _ in diffs])] if diffs else [z3.BoolVal(False)],
                      timeout)
        return Result('holds' if r == 'unsat' else 'unknown')
    ax = enc.axioms + [d != 0 for d in dens.values()]
    if len(live) > 1:
        r, m = _check(hy + ax + [z3.Or(*[z for z, _, _, _ in live])], min(timeout, 10.), True)
        if r == 'unsat':
            return Result('holds')
        if r == 'sat':
            which = [(lab, a, b) for z, lab, a, b in live
                     if z3.is_true(m.eval(z, model_completion=True))]
            return Result('violated', model_env(enc, m), which=which)
    unknown = []
    for z, lab, a, b in live:
        r, m = _check(hy + ax + [z], timeout, True)
        if r == 'sat':
            return Result('violated', model_env(enc, m), which=[(lab, a, b)])
        if r == 'unknown':
            unknown.append(lab)
    if unknown:
        return Result('unknown', detail='solver undecided: %s' % unknown[:4])
    return Result('holds')


def valid(goals, hyps, timeout=20., exp=False, extra=None, lemmas=None):
    """forall values satisfying hyps: every goal (SymBool) holds.

    lemmas: for each goal, the instances of axioms it may use"""
    for k, g in enumerate(goals):
        if not exp and not extra:
            enc = Encoder(abstract_even=True)
            hy = [enc.boolean(h) for h in hyps]
            zg = enc.boolean(g)
            r, _ = _check(hy + enc.axioms + [z3.Not(zg)], min(timeout, 5.))
            if r == 'unsat':
                continue
        enc = Encoder()
        hy = [enc.boolean(h) for h in hyps]
        if lemmas:
            hy += [enc.boolean(h) for h in lemmas[k]]
        zg = enc.boolean(g)
        ax = list(enc.axioms)
        if exp:
            ax += enc.exp_axioms()
        if extra:
            ax += extra(enc)
        r, m = _check(hy + ax + [z3.Not(zg)], timeout, True)
        if r == 'sat':
            return Result('violated', model_env(enc, m), which=[g])
        if r == 'unknown':
            return Result('unknown', detail='solver undecided: %s' % E.showb(g, 4))
    return Result('holds')


def partial_domain(roots):
    """[(kind, condition)] that must hold for every operation in the terms to be defined."""
    out = []
    guarded = set()
    for n in E.topo(roots):
        if isinstance(n, Sym) and n.op == 'ite':
            for x in E.topo([n.args[1], n.args[2]]):
                guarded.add(x.id)
    seen = set()
    for n in E.topo(roots):
        if isinstance(n, SymBool) or n.id in guarded:
            continue
        c = None
        if n.op == 'div':
            c = E.bnot(E.eq(n.args[1], E.ZERO))
        elif n.op == 'f:log':
            c = E.lt(E.ZERO, n.args[0])
        elif n.op.startswith('f:root') or n.op == 'powr':
            c = E.bnot(E.lt(n.args[0], E.ZERO))
        elif n.op in ('f:asin', 'f:acos'):
            c = E.band(E.bnot(E.lt(n.args[0], E.const(-1))),
                       E.bnot(E.lt(E.ONE, n.args[0])))
        if c is not None and c is not E.TRUE and c.id not in seen:
            seen.add(c.id)
            out.append(c)
    return out
