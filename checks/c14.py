"""Models split over groups."""
import openmdao.api as om
from checks.common import *
from checks.c13 import program_case
from checks.forms import forms, split_form
from symot.graphs import GraphCase, xvar
from symot.programs import Program, draw, prune, text, OPS, GROUPED

PROP = 'C14'
TITLE = 'subsystems'
ASSUMPTIONS = ASSUME + ['outputs a subsystem needs are registered before it is added, and its '
                        'outputs declared as inputs after it, as the documentation requires']
STYLES = ('class', 'plain', 'lists', 'context', 'openmdao', 'nested', 'deep', 'connected')
BOUNDS = dict(BOUNDS, splits='400 programs (3000 in the thorough tier) of 3..9 statements, split '
                             'into 2..5 runs of statements, each in the outer group or in a '
                             'subsystem: ' + ', '.join(STYLES),
              forms='forms of the operations of C01..C10 and C19 in a subsystem or between two',
              independents='one or two independent variables created anywhere around up to three '
                           'subsystems (four in the thorough tier) that use any of them',
              orders='outer graphs with one or two subsystems: every graph over 2 expressions '
                     'and one subsystem or 1 and two (3 and one, 2 and two in the thorough tier), '
                     'every place of the subsystems, every order of iteration of sets in which '
                     'up to 3 expressions move freely',
              depth='groups nested to depth 4')


def val(s):
    return np.full(s, .7)


class Split(object):
    """the program p, statements cut into parts; part = (style, [statement numbers])"""

    def __init__(self, p, parts):
        self.p = p
        self.parts = parts
        self.shapes = p.shapes()
        self.k = len(p.inputs)
        self.where = {}
        for n, (_, st) in enumerate(parts):
            for i in st:
                self.where[self.k + i] = n
        # values needed outside the part that computes them
        self.cross = set()
        for n, (_, st) in enumerate(parts):
            for i in st:
                for a in p.body[i][1]:
                    if a >= self.k and self.where[a] != n:
                        self.cross.add(a)

    def name(self, a):
        return self.p.inputs[a][0] if a < self.k else \
            self.p.registered.get(a - self.k, 'v%d' % (a - self.k))

    def need(self, st):
        """values from elsewhere these statements use"""
        out = []
        for i in st:
            for a in self.p.body[i][1]:
                if (a < self.k or a - self.k not in st) and a not in out:
                    out.append(a)
        return out

    def body(self, g, st, vs, register):
        """statements st written into g; vs: the values g can see"""
        later = []
        for i in st:
            op, args = self.p.body[i]
            a = self.k + i
            if op in GROUPED:
                vs[a] = GROUPED[op][2](g, self.name(a), *[vs[b] for b in args])
                continue
            vs[a] = OPS[op][2](*[vs[b] for b in args])
            if a in register:
                if self.p.when in ('once', 'mixed'):
                    g.register_output(self.name(a), vs[a])
                else:
                    later.append(a)
        if self.p.when == 'backwards':
            later.reverse()
        for a in later:
            g.register_output(self.name(a), vs[a])

    def declare(self, g, a):
        return g.declare_input(self.name(a), shape=self.shapes[a], val=val(self.shapes[a]))

    def fill(self, g, st, register):
        """a whole group that computes st"""
        vs = {a: self.declare(g, a) for a in self.need(st)}
        self.body(g, st, vs, register)

    def fill_nested(self, g, st, register, depth):
        """the first half of st in a group of its own, within g"""
        h = (len(st) + 1) // 2
        first, rest = st[:h], st[h:]
        self.sub(g, 'inner%d' % depth, 'nested' if depth > 1 else 'class', first,
                 register | {a for a in self.need(rest)}, depth - 1)
        vs = {a: self.declare(g, a) for a in self.need(rest)}
        self.body(g, rest, vs, register)

    def make(self, style, st, register, depth=1):
        me = self
        if style == 'plain':
            g = ot.Group()
            self.fill(g, st, register)
            return g
        if style == 'openmdao':
            class O(om.Group):
                def setup(self):
                    self.add_subsystem('part', me.make('class', st, register), promotes=['*'])
            return O()

        class G(ot.Group):
            def setup(self):
                if style == 'nested' and len(st) > 1:
                    me.fill_nested(self, st, register, depth)
                else:
                    me.fill(self, st, register)
        return G()

    def sub(self, g, name, style, st, register, depth=1):
        if style == 'context':
            with g.create_group(name) as c:
                self.fill(c, st, register)
            return
        if style == 'deep':
            style, depth = 'nested', 3
        s = self.make(style, st, register, depth)
        ins = [self.name(a) for a in self.need(st)]
        outs = [self.name(self.k + i) for i in st if self.k + i in register
                or self.p.body[i][0] in GROUPED]
        if style == 'lists':
            kw = {}
            if ins:
                kw['promotes_inputs'] = ins
            if outs:
                kw['promotes_outputs'] = outs
            g.add_subsystem(name, s, **kw)
        elif style == 'connected':
            # values other parts compute, and values other parts need, are connected by hand
            mine = [self.name(a) for a in self.need(st) if a < self.k]
            kw = {'promotes_inputs': mine} if mine else {}
            kept = [n for n in outs if n not in self.crossing_names()]
            if kept:
                kw['promotes_outputs'] = kept
            g.add_subsystem(name, s, **kw)
            for a in self.need(st):
                if a >= self.k:
                    g.connect(self.out_path(a), '%s.%s' % (name, self.name(a)))
        else:
            g.add_subsystem(name, s, promotes=['*'])

    def crossing_names(self):
        return {self.name(a) for a in self.cross}

    def out_path(self, a):
        n = self.where[a]
        if self.parts[n][0] == 'connected' and a in self.cross:
            return 'part%d.%s' % (n, self.name(a))
        return self.name(a)

    def write(self, g):
        # everything registered or needed elsewhere is an output of its part
        register = {self.k + i for i in self.p.registered} | self.cross
        vs = {}
        for a, (n, s, kind) in enumerate(self.p.inputs):
            if kind == 'indep':
                vs[a] = g.create_indep_var(n, shape=s, val=val(s))
        done, inside = set(), set()
        for n, (style, st) in enumerate(self.parts):
            if style == 'inline':
                for a in self.need(st):
                    if a not in vs:
                        vs[a] = self.declare(g, a)
                self.body(g, st, vs, register)
            else:
                self.sub(g, 'part%d' % n, style, st, register)
            if style != 'connected':
                # promoted inputs whose source is not promoted
                for a in self.need(st):
                    if a >= self.k and a not in done and a not in inside \
                            and self.out_path(a) != self.name(a):
                        done.add(a)
                        g.connect(self.out_path(a), self.name(a))
            if style == 'inline':
                inside |= {self.k + i for i in st}


def split_case(id, p, parts):
    sp = Split(p, parts)
    c = program_case(id, p)
    base = c.inputs

    def fn(g):
        sp.write(g)
    reg = {p.registered[i]: i for i in p.registered}
    c.make = group(fn)
    c.outputs = []
    for n, i in sorted(reg.items()):
        a = sp.k + i
        path = sp.out_path(a)
        c.outputs.append(path)
    spec0 = c.spec
    names = {sp.out_path(sp.k + i): n for n, i in reg.items()}
    c.spec = lambda ins: {path: v for path, v in
                          ((path, spec0(ins)[n]) for path, n in names.items())}
    # values that cross are computed even if no registered output needs them
    used = set()

    def need(i):
        if i not in used:
            used.add(i)
            if i >= sp.k:
                for b in p.body[i - sp.k][1]:
                    need(b)
    for a in sp.cross:
        need(a)
    for i in p.registered:
        need(sp.k + i)
    c.inputs = {n: s for j, (n, s, kind) in enumerate(p.inputs) if j in used or kind == 'indep'}
    c.wrt = list(c.inputs)
    c._sample = lambda rng: {n: rng.uniform(-1, 1, size=s) for n, s in c.inputs.items()}
    c.note += ' | ' + ' | '.join('%s %s' % x for x in parts)
    return c


def cut(rng, n, styles):
    m = int(rng.integers(2, min(5, n) + 1))
    cuts = sorted(rng.choice(np.arange(1, n), size=m - 1, replace=False).tolist()) if n > 1 else []
    b = [0] + cuts + [n]
    parts = []
    for i in range(len(b) - 1):
        style = 'inline' if rng.random() < .4 else styles[int(rng.integers(len(styles)))]
        parts.append((style, list(range(b[i], b[i + 1]))))
    if all(s == 'inline' for s, _ in parts):
        parts[0] = (styles[0], parts[0][1])
    return parts


# ------------------------------------------------------------- structure: symbolic orders
def sub_of(names, out, factor):
    class G(ot.Group):
        def setup(self):
            vs = [self.declare_input(n, val=1.) for n in names]
            u = vs[0]
            for v in vs[1:]:
                u = u + v
            t = factor * u
            self.register_output(out, t)
            self.register_output(out + '2', t * vs[0])
    return G()


def around(n, nsub, at):
    """n expressions, registered or not; subsystem k is added before expression at[k]; it takes
    a symbolic choice of what is registered by then; later expressions may use its outputs"""
    def build(g, ch):
        x = g.declare_input('x', val=1.)
        vals = []          # (variable, meaning, name if registered)
        spec = {}
        k = 0
        for i in range(n + 1):
            while k < nsub and at[k] == i:
                reg = [v for v in vals if v[2]]
                take = [v for v in reg if ch('s%d takes %s' % (k, v[2]))]
                names = [v[2] for v in take] or ['x']
                es = [v[1] for v in take] or [xvar('x')]
                g.add_subsystem('sub%d' % k, sub_of(names, 'o%d' % k, k + 2), promotes=['*'])
                o = g.declare_input('o%d' % k, val=1.)
                o2 = g.declare_input('o%d2' % k, val=1.)
                e = (k + 2) * ssum(es)
                spec['o%d' % k] = [e]
                spec['o%d2' % k] = [e * es[0]]
                vals.append((o, e, 'o%d' % k))
                vals.append((o2, e * es[0], ''))
                k += 1
            if i == n:
                break
            ds = [v for j, v in enumerate(vals) if ch('e%d_%d' % (i, j))]
            if ds:
                u = ot.sum(*[v[0] for v in ds]) if len(ds) > 1 else ds[0][0] * 3
                e = ssum([v[1] for v in ds]) if len(ds) > 1 else ds[0][1] * 3
            else:
                u = x + (i + 1)
                e = xvar('x') + (i + 1)
            nm = ''
            if ch('r%d' % i):
                nm = 'u%d' % i
                g.register_output(nm, u)
                spec[nm] = [e]
            vals.append((u, e, nm))
        return spec
    return build


def indep_inside(g, ch):
    """the subsystem creates an independent variable of its own; one is created after it"""
    x = g.declare_input('x', val=1.)
    p = g.create_indep_var('p', val=2.)
    a = g.register_output('a', x * p)

    class G(ot.Group):
        def setup(self):
            a = self.declare_input('a', val=1.)
            q = self.create_indep_var('q', val=3.)
            self.register_output('b', a * q)
    g.add_subsystem('s', G(), promotes=['*'])
    if ch('declared'):
        q = g.declare_input('q', val=1.)
    else:
        q = x
    b = g.declare_input('b', val=1.)
    r = g.create_indep_var('r', val=4.)
    g.register_output('y', b * r + q)
    g.register_output('z', a + r)
    X, P, Q, R_ = xvar('x'), xvar('p'), xvar('q'), xvar('r')
    return {'a': [X * P], 'b': [X * P * Q], 'y': [X * P * Q * R_ + (Q if ch('declared') else X)],
            'z': [X * P + R_]}


def indep_anywhere(nsub, nind):
    """independent variables created before, between or after the subsystems that use them"""
    def build(g, ch):
        g.declare_input('x', val=1.)
        names = ['p', 'q'][:nind]
        use = [[m for m in names if ch('s%d uses %s' % (k, m))] for k in range(nsub)]
        spec, left = {}, list(names)
        for k in range(nsub + 1):
            for m in list(left):
                if k == nsub or ch('%s before s%d' % (m, k)):
                    left.remove(m)
                    g.create_indep_var(m, val=2.)
                    spec[m] = [xvar(m)]
            if k < nsub:
                # of the previous subsystem, too
                before = 'o%d' % (k - 1) if k else 'x'
                g.add_subsystem('sub%d' % k, sub_of(use[k] + [before], 'o%d' % k, k + 2),
                                promotes=['*'])
                es = [xvar(m) for m in use[k]] + [spec[before][0] if k else xvar('x')]
                spec['o%d' % k] = [(k + 2) * ssum(es)]
                spec['o%d2' % k] = [(k + 2) * ssum(es) * es[0]]
        return spec
    return build


def untouched(g, ch):
    """a subsystem nothing depends on still runs, after what it needs"""
    x = g.declare_input('x', val=1.)
    a = x * 2
    b = a + x
    g.register_output('b', b)
    if ch('register a'):
        g.register_output('a', a)
    g.add_subsystem('s', sub_of(['a', 'b'] if ch('register a') else ['b'], 'o', 2),
                    promotes=['*'])
    g.register_output('c', b * a)
    X = xvar('x')
    s = {'b': [3 * X], 'c': [6 * X * X]}
    if ch('register a'):
        s.update({'a': [2 * X], 'o': [10 * X], 'o2': [20 * X * X]})
    else:
        s.update({'o': [6 * X], 'o2': [18 * X * X]})
    return s


def cases(tier):
    out = []
    n = 400 if tier == 'quick' else 3000
    for k in range(n):
        rng = np.random.default_rng(9000 + k)
        p = prune(draw(rng, 4 + k % 9, cheap=k % 3 > 0))
        if len(p.body) < 3:
            continue
        parts = cut(rng, len(p.body), STYLES)
        out.append(split_case('split %d' % k, p, parts))
    for k, (id, f) in enumerate(forms(tier)):
        for j in ((k,) if tier == 'quick' else (0, 1)):
            out.append(split_form('form %s %s' % (('in a subsystem', 'between subsystems')[j % 2],
                                                  id), f, j))
    # every style on its own, whole program in one subsystem and the middle of it
    for k in range(6):
        rng = np.random.default_rng(500 + k)
        p = None
        while p is None or len(p.body) != 6:
            p = prune(draw(rng, 8, cheap=True))
        for st in STYLES:
            out.append(split_case('all in one %s %d' % (st, k), p, [(st, list(range(6)))]))
            out.append(split_case('middle %s %d' % (st, k), p,
                                  [('inline', [0, 1]), (st, [2, 3]), ('inline', [4, 5])]))
            out.append(split_case('ends %s %d' % (st, k), p,
                                  [(st, [0, 1]), ('inline', [2, 3]), (st, [4, 5])]))
    for rev in (False, True):
        t = ' low first' if rev else ''
        frees = [(1, 2, 4), (0, 3, 5)] if tier == 'quick' else [(1, 2, 4), (0, 3, 5), (2, 6, 7),
                                                                (1, 3, 8)]
        for free in frees:
            for m in (1, 2) if tier == 'quick' else (1, 2, 3):
                for at in range(m + 1):
                    out.append(GraphCase('one subsystem before %d of %d%s free %s' % (
                        at, m, t, free), around(m, 1, (at,)), lambda i, f=free: i in f,
                        reverse=rev, unused=False))
            for m in (1,) if tier == 'quick' else (1, 2):
                for at in itertools.combinations_with_replacement(range(m + 1), 2):
                    out.append(GraphCase('two subsystems before %s of %d%s free %s' % (
                        at, m, t, free), around(m, 2, at), lambda i, f=free: i in f, reverse=rev,
                        unused=False))
        for ns, ni in ((1, 1), (2, 1), (3, 1), (1, 2)) + (((2, 2), (4, 1)) if tier == 'thorough' else ()):
            for free in ((0, 1, 2), (1, 3, 4)):
                if tier == 'quick' and ns == 3 and free[0] == rev:
                    continue
                out.append(GraphCase('%d independent variables anywhere around %d subsystems%s free %s'
                                     % (ni, ns, t, free), indep_anywhere(ns, ni),
                                     lambda i, f=free: i in f, reverse=rev, unused=False))
        out.append(GraphCase('independent variables inside%s' % t, indep_inside,
                             lambda i: i in (0, 2, 4, 6), reverse=rev, unused=False))
        out.append(GraphCase('subsystem nothing needs%s' % t, untouched, lambda i: i in (0, 2, 3, 4), reverse=rev,
                             unused=False))
    return out
