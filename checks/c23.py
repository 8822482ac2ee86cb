"""Option dictionaries."""
from checks.common import *
from symot import solve as S
import random
import time

PROP = 'C23'
TITLE = 'option dictionaries'
ASSUMPTIONS = [
    'numbers are real: comparisons with nan are outside the claim',
    'the dictionary treats names alike: two names stand for all',
    'any exception counts as a refusal']
OUTSIDE = ('more than two options, longer sequences, values of other types, check_valid functions '
           'other than one that refuses a number; printed tables')
BOUNDS = {
    'values': 'None, strings, lists, and every real number as an int, a float or a bool; bounds, '
              'listed values and the number check_valid refuses are every real number',
    'declarations': 'every combination of listed values (list, tuple, set of numbers, strings, '
                    'None), types (one, tuple, list, set), upper, lower, check_valid, allow_none, '
                    'default (none, or any value)',
    'sequences': 'declaration, two assignments and reads of one option; every sequence of up to 4 '
                 '(quick) or 5 (thorough) of the operations set, get, update, undeclare, declare, '
                 'membership, iteration on two options; the next operation is a symbolic choice'}


class Num(object):
    """a number the solver chooses; passes for a value of class cls"""
    __slots__ = ('sym', 'cls')
    __class__ = property(lambda self: self.cls)

    def __init__(self, name, cls):
        self.sym = E.var(name)
        self.cls = cls

    def __hash__(self):
        return 0

    def __repr__(self):
        return '<%s %s>' % (self.cls.__name__, E.show(self.sym, 2))

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _cmp(self, o, f):
        if type(o) is Num:
            return bool(f(self.sym, o.sym))
        if isinstance(o, (int, float)):
            return bool(f(self.sym, E.const(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, E.eq)

    def __ne__(self, o):
        r = self._cmp(o, E.eq)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return self._cmp(o, E.lt)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: E.lt(b, a))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: E.bnot(E.lt(b, a)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: E.bnot(E.lt(a, b)))

    def __bool__(self):
        return not bool(E.eq(self.sym, E.ZERO))

    def __neg__(self):
        raise E.Unencodable('arithmetic on an option')

    __add__ = __sub__ = __mul__ = __radd__ = __float__ = __neg__


class Rolls(dict):
    """choices made on demand"""

    def __init__(self, rng):
        self.rng = rng

    def __missing__(self, k):
        self[k] = self.rng.randrange(720)
        return self[k]


class Numbers(Rolls):
    def __missing__(self, k):
        self[k] = self.rng.randrange(-2, 3)
        return self[k]


class World(object):
    """makes values: symbolic ones that fork, or those of a replay"""

    def __init__(self, doc=None):
        self.doc = doc
        self.log = {}
        self.env = (doc or {}).get('numbers', {})

    def choose(self, name, options):
        """one of the options, any of them"""
        if self.doc is not None:
            return options[self.doc['choices'][name] % len(options)]
        v = E.var('choice ' + name)
        k = len(options) - 1
        for i in range(len(options) - 1):
            if bool(E.eq(v, E.const(i))):
                k = i
                break
        self.log[name] = k
        return options[k]

    def number(self, name, cls):
        if self.doc is None:
            return Num(name, cls)
        return cls(self.env[name] if name in self.env or isinstance(self.env, Numbers) else 0)

    def value(self, name, kinds):
        k = self.choose(name, kinds)
        if k == 'none':
            return None
        if k == 'a' or k == 'b':
            return k
        if k == 'list':
            return ['a']
        return self.number(name, dict(int=int, float=float, bool=bool)[k])


def isnum(v):
    return isinstance(v, (int, float))


def sym(v):
    return v.sym if type(v) is Num else E.const(v)


def equal(a, b):
    """condition that two values are equal"""
    if a is None or b is None:
        return E.TRUE if a is b else E.FALSE
    if isnum(a) and isnum(b):
        return E.eq(sym(a), sym(b))
    if isnum(a) or isnum(b) or isinstance(a, str) != isinstance(b, str):
        return E.FALSE
    return E.TRUE if a == b else E.FALSE


def acceptable(meta, v):
    """condition that the declaration allows the value"""
    c = []
    if not (v is None and meta.get('allow_none')):
        if meta.get('values') is not None:
            vs = list(meta['values'])
            if isinstance(v, list) and isinstance(meta['values'], set):
                return E.FALSE             # not hashable
            c.append(E.bor(*[equal(v, w) for w in vs]))
        if meta.get('types') is not None:
            ts = meta['types']
            ts = ts if isinstance(ts, (tuple, list, set)) else (ts,)
            c.append(E.TRUE if any(isinstance(v, t) for t in ts) else E.FALSE)
        for key, f in (('upper', lambda x, b: E.bnot(E.lt(b, x))),
                       ('lower', lambda x, b: E.bnot(E.lt(x, b)))):
            b = meta.get(key)
            if b is not None:
                c.append(f(sym(v), sym(b)) if isnum(v) else E.FALSE)
    if meta.get('check_valid') is not None:
        r = meta['check_valid'].refused
        c.append(E.bnot(equal(v, r)))
    return E.band(*c)


def checker(r):
    def check_valid(name, value):
        if type(value) in (Num, int, float, bool) and value == r:
            raise ValueError('option %s' % name)
    check_valid.refused = r
    return check_valid


class Wrong(Exception):
    pass


class Story(object):
    """operations on a dictionary, with what must come of them"""

    def __init__(self, w, d):
        self.w = w
        self.d = d
        self.meta = {}            # name -> declaration, None when anything may be
        self.val = {}             # name -> values it may have; absent: not set
        self.obs = []             # (condition, what)
        self.read_only = False
        self.h = []

    def attempt(self, what, f):
        self.h.append(what)
        try:
            return True, f()
        except E.Unencodable:
            raise
        except (Exception, SystemExit) as e:
            if type(e).__name__ in ('PathAbort', 'CaseTimeout'):
                raise
            return False, e

    def must(self, cond, what):
        self.obs.append((E.blift(cond), '%s: %s' % (what, ' '.join(self.h))))

    def declare(self, n, kw):
        ok, r = self.attempt('declare %s' % n, lambda: self.d.declare(n, **kw))
        good = E.TRUE
        if kw.get('values') is not None and kw.get('types') is not None:
            good = E.FALSE
        elif 'default' in kw:
            good = acceptable(kw, kw['default'])
        self.must(good if ok else E.bnot(good), 'declaration %s' % (
            'accepted' if ok else 'refused (%s)' % r))
        if ok:
            self.meta[n] = kw
            self.val.pop(n, None)
            if 'default' in kw:
                self.val[n] = [kw['default']]
        return ok

    def set(self, n, v, how='set'):
        if how == 'set':
            ok, r = self.attempt('set %s = %r' % (n, v), lambda: self.d.__setitem__(n, v))
        else:
            ok, r = self.attempt('update %s = %r' % (n, v), lambda: self.d.update({n: v}))
        good = E.FALSE
        if n in self.meta and not self.read_only:
            good = acceptable(self.meta[n], v)
        self.must(good if ok else E.bnot(good), 'value %s' % (
            'accepted' if ok else 'refused (%s)' % r))
        if ok:
            self.val[n] = [v]

    def update(self, vs):
        ok, r = self.attempt('update %r' % (vs,), lambda: self.d.update(vs))
        good = [acceptable(self.meta[n], v) if n in self.meta and not self.read_only else E.FALSE
                for n, v in vs.items()]
        self.must(E.band(*good) if ok else E.bnot(E.band(*good)), 'update %s' % (
            'accepted' if ok else 'refused (%s)' % r))
        for (n, v), g in zip(vs.items(), good):
            if ok:
                self.val[n] = [v]
            elif g is not E.FALSE and n in self.meta:
                self.val[n] = self.val.get(n, ['unset']) + [(g, v)]

    def get(self, n):
        ok, r = self.attempt('get %s' % n, lambda: self.d[n])
        may = self.val.get(n, ['unset'])
        if not ok:
            self.must(E.TRUE if n not in self.meta or 'unset' in may else E.FALSE,
                      'reading fails (%s)' % r)
            return
        if n not in self.meta:
            return self.must(E.FALSE, 'an option that is not declared has the value %r' % (r,))
        conds = []
        for v in may:
            if v == 'unset':
                continue
            g, v = v if isinstance(v, tuple) else (E.TRUE, v)
            same = type(r) is type(v) and (type(r) is not Num or r.cls is v.cls)
            conds.append(E.band(g, equal(r, v)) if same else E.FALSE)
        self.must(E.bor(*conds), 'reading gives %r' % (r,))

    def undeclare(self, n):
        ok, r = self.attempt('undeclare %s' % n, lambda: self.d.undeclare(n))
        self.must(E.TRUE if ok else E.FALSE, 'undeclare')
        self.meta.pop(n, None)
        self.val.pop(n, None)

    def members(self):
        ok, r = self.attempt('members', lambda: (sorted(self.d), [n in self.d for n in 'ab']))
        want = (sorted(self.meta), [n in self.meta for n in 'ab'])
        self.must(E.TRUE if ok and r == want else E.FALSE, 'names are %s' % (r,))


class OptionCase(object):
    """story(w) -> list of obligations of one story told with the values of w"""
    kind = 'options'

    def __init__(self, id, story):
        self.id = id
        self.story = story

    def run(self, seed, tier):
        out = Outcome()
        t0 = time.time()

        def go():
            w = self.w = World()
            with quiet():
                return w, self.story(w)
        ex = E.Explorer(S.path_checker(), max_paths=60000)
        for (kind, res), pc in ex.run(go):
            out.paths += 1
            if kind != 'ok':
                out.inconclusive('%s: %s' % (type(res).__name__, res))
                continue
            w, obs = res
            out.obligations += len(obs)
            bad = [o for o in obs if o[0] is E.FALSE]
            st = None
            if bad:
                st, env = S.satisfiable(pc)
                which = bad[0][1]
            else:
                goals = [o for o in obs if o[0] is not E.TRUE]
                if goals:
                    r = S.valid([E.band(*[g for g, _ in goals])], pc)
                    if r.status == 'unknown':
                        out.inconclusive(r.detail)
                    elif r.status == 'violated':
                        st, env = 'sat', r.env
                        which = goals[0][1]
                    if not out.twin:
                        out.twin = int(S.satisfiable(pc)[0] == 'sat')
                    if out.sample is None and len(obs) > 2:
                        out.sample = '%s: %s <- %s' % (self.id, E.showb(goals[-1][0], 4),
                                                      goals[-1][1][:200])
            if st == 'sat':
                doc = {'case': self.id, 'choices': dict(w.log), 'numbers': ranks(env)}
                said = self.replay(doc)
                if said:
                    return out.violate(said, doc)
                out.inconclusive('not reproduced: %s' % which)
        # stories with real numbers: the answers they must give
        rng = random.Random('%s %s' % (seed, self.id))
        for _ in range(20):
            doc = {'case': self.id, 'choices': Rolls(rng), 'numbers': Numbers(rng)}
            said = self.replay(doc)
            out.conformance += 1
            if said:
                doc['choices'], doc['numbers'] = dict(doc['choices']), dict(doc['numbers'])
                return out.violate(said, doc)
        if ex.truncated:
            out.inconclusive('path bound reached')
        out.functions |= {'omtools.utils.options_dictionary.OptionsDictionary.%s' % f for f in (
            'declare', 'undeclare', 'update', '__setitem__', '__getitem__', '__contains__',
            '__iter__', '_assert_valid', '__init__')}
        out.wall = time.time() - t0
        return out

    def replay(self, doc):
        w = World(doc)
        with quiet():
            obs = self.story(w)
        for c, what in obs:
            if not E.evaluate([c], {})[0]:
                return what
        return None


def ranks(env):
    """numbers in the same order: only comparisons matter"""
    vs = sorted(set(v for n, v in env.items() if not n.startswith('choice ')))
    return {n: vs.index(v) for n, v in env.items() if not n.startswith('choice ')}


def fresh_dict(**kw):
    from omtools.utils.options_dictionary import OptionsDictionary
    return OptionsDictionary(**kw)


KINDS = ['none', 'a', 'list', 'int', 'float']


def cases(tier):
    out = []
    L = 4 if tier == 'quick' else 5
    forms = {
        'any': lambda w: {},
        'values list': lambda w: {'values': [w.number('v0', float), 'a', w.number('v1', int)]},
        'values tuple': lambda w: {'values': ('b', w.number('v0', int), None)},
        'values set': lambda w: {'values': {w.number('v0', float), 'a'}},
        'no values': lambda w: {'values': []},
        'type float': lambda w: {'types': float},
        'type int': lambda w: {'types': int},
        'type str': lambda w: {'types': str},
        'types tuple': lambda w: {'types': (int, str)},
        'types list': lambda w: {'types': [float, list]},
        'types set': lambda w: {'types': {int, float}},
        'both': lambda w: {'types': float, 'values': [w.number('v0', float)]},
        'nothing given': lambda w: {'types': None, 'values': None, 'upper': None, 'lower': None},
    }
    for f, form in forms.items():
        for up, low, chk in itertools.product((0, 1), repeat=3):
            if chk and up and low and tier == 'quick':
                continue

            def story(w, form=form, up=up, low=low, chk=chk):
                kw = form(w)
                if up:
                    kw['upper'] = w.number('upper', w.choose('upper class', [int, float]))
                if low:
                    kw['lower'] = w.number('lower', float)
                if chk:
                    kw['check_valid'] = checker(w.number('refused', float))
                none = w.choose('allow_none', [None, False, True])
                if none is not None:
                    kw['allow_none'] = none
                if w.choose('default given', [True, False]):
                    kw['default'] = w.value('default', KINDS)
                s = Story(w, fresh_dict())
                if s.declare('a', kw):
                    s.get('a')
                    s.set('a', w.value('first', KINDS))
                    s.get('a')
                    if not (up and low):
                        s.set('a', w.value('second', KINDS[1:4]), 'update')
                        s.get('a')
                return s.obs
            out.append(OptionCase('%s%s%s%s' % (f, ', upper' * up, ', lower' * low,
                                                ', check_valid' * chk), story))

    # bool is an int
    def bools(w):
        s = Story(w, fresh_dict())
        t = w.choose('type', [bool, int, float, (str, bool), (float, int)])
        if s.declare('a', {'types': t}):
            s.set('a', w.value('v', ['bool', 'int', 'float', 'none']))
            s.get('a')
        return s.obs
    out.append(OptionCase('bools', bools))

    # sequences on two options
    def decl(w, n, k):
        return {'a': {'types': (int, float), 'lower': w.number('lower', float)},
                'b': {'values': ['a', None, w.number('v0', float)],
                      'default': 'a'}}[n] if k == 0 else \
            {'a': {'upper': w.number('upper', int), 'default': w.number('upper', int)},
             'b': {'allow_none': True, 'types': str}}[n]

    def ops(w, s, k):
        op = w.choose('op %d' % k, ['set a', 'set b', 'get a', 'get b', 'update', 'undeclare a',
                                    'declare a', 'declare b', 'members'])
        if op.startswith('set'):
            s.set(op[-1], w.value('value %d' % k, ['none', 'a', 'float']))
        elif op.startswith('get'):
            s.get(op[-1])
        elif op == 'update':
            s.update({'a': w.value('value a %d' % k, ['a', 'int']),
                      'b': w.value('value b %d' % k, ['none', 'float'])})
        elif op.startswith('undeclare'):
            s.undeclare('a')
        elif op.startswith('declare'):
            if not s.declare(op[-1], decl(w, op[-1], w.choose('declaration %d' % k, [0, 1]))):
                raise Wrong('declaration refused')
        else:
            s.members()
        return op

    for first in ('none', 'a', 'a and b', 'other a and b'):
        def story(w, first=first):
            s = Story(w, fresh_dict())
            if 'a' in first.split():
                s.declare('a', decl(w, 'a', 'other' in first))
            if 'b' in first:
                s.declare('b', decl(w, 'b', 'other' in first))
            for k in range(L - 1 - (first[-1] == 'b')):
                ops(w, s, k)
            s.get('a')
            s.get('b')
            s.members()
            return s.obs
        out.append(OptionCase('sequences after %s' % first, story))

    # read-only dictionaries
    def readonly(w):
        s = Story(w, fresh_dict(read_only=True))
        s.read_only = True
        s.declare('a', {'default': w.value('default', KINDS)})
        s.declare('b', {})
        for k in range(2):
            ops(w, s, k)
        s.get('a')
        s.get('b')
        return s.obs
    out.append(OptionCase('read only', readonly))

    # two dictionaries, values given to the constructor
    def constructed(w):
        from omtools.utils.options_dictionary import OptionsDictionary
        up = w.number('upper', float)

        class D(OptionsDictionary):
            def initialize(self):
                self.declare('a', types=(int, float), upper=up)
                self.declare('b', default='b')
        obs = []
        va, vb = w.value('va', KINDS), w.value('vb', KINDS)
        meta = {'a': {'types': (int, float), 'upper': up}, 'b': {}}
        try:
            d = D(a=va, b=vb)
            ok = True
        except (TypeError, ValueError, KeyError):
            ok = False
        good = acceptable(meta['a'], va)
        obs.append((good if ok else E.bnot(good), 'construction'))
        e = D()
        for o, a, b in ([(d, [va], [vb])] if ok else []) + [(e, None, ['b'])]:
            s = Story(w, o)
            s.meta = dict(meta)
            s.val = {'b': b}
            if a:
                s.val['a'] = a
            s.get('a')
            s.get('b')
            obs += s.obs
        # the second dictionary goes its own way
        s = Story(w, e)
        s.meta = dict(meta)
        s.val = {'b': ['b']}
        s.set('b', w.value('vc', ['a', 'int']))
        s.get('b')
        obs += s.obs
        if ok:
            s = Story(w, d)
            s.meta, s.val = dict(meta), {'a': [va], 'b': [vb]}
            s.get('a')
            s.get('b')
            obs += s.obs
        return obs
    out.append(OptionCase('constructed', constructed))
    return out
