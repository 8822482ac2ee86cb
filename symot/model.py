"""Symbolic execution of a set-up OpenMDAO problem.

The problem is set up by the real OpenMDAO and the real omtools code.  A sweep then calls,
in the order OpenMDAO would, the real `compute` / `compute_partials` of every component,
with stand-ins for OpenMDAO's vectors and jacobian that hold symbolic values and follow
OpenMDAO 3.45's assignment rules.  Total derivatives are the chain rule over the declared
sparsity patterns and the values the components wrote.
"""
import os
import sys
import io
import contextlib
import tempfile

os.environ.setdefault('OPENMDAO_REPORTS', '0')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
if 'OPENMDAO_WORKDIR' not in os.environ:
    os.environ['OPENMDAO_WORKDIR'] = tempfile.gettempdir()
REPO = os.environ.get('SYMOT_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
from openmdao.api import Problem, Group as OMGroup  # noqa: E402,F401
from openmdao.core.component import Component  # noqa: E402
from openmdao.core.explicitcomponent import ExplicitComponent  # noqa: E402
from openmdao.core.implicitcomponent import ImplicitComponent as OMImplicit  # noqa: E402
from openmdao.core.indepvarcomp import IndepVarComp  # noqa: E402

from . import expr as E  # noqa: E402
from . import arr as A  # noqa: E402
from .expr import Unencodable  # noqa: E402
from .arr import SymArray, symarray, fresh, symbolic_numpy  # noqa: E402


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield


class Vec(object):
    """stand-in for an OpenMDAO vector of one component"""

    def __init__(self, store, read_only=False):
        self._store = store          # local name -> SymArray (its shape is the variable's)
        self.read_only = read_only

    def __getitem__(self, name):
        if name not in self._store:
            raise KeyError("Variable name '%s' not found." % name)
        a = self._store[name]
        if a.ndim == 0:
            return a.view(np.ndarray)[()]
        return a[...]

    def __setitem__(self, name, val):
        self.set_var(name, val)

    def set_var(self, name, val, idxs=None, flat=False):
        if name not in self._store:
            raise KeyError("Variable name '%s' not found." % name)
        if self.read_only:
            raise ValueError("Attempt to set value of '%s' in vector when it is read only."
                             % name)
        if flat or idxs is not None:
            raise Unencodable('set_var with indices')
        a = self._store[name]
        v = val if isinstance(val, A.MaskedPick) else A.lift_arr(val)
        if isinstance(v, A.MaskedPick):
            v = v.materialise().view(np.ndarray)
        base = a.view(np.ndarray)
        try:
            base[...] = v
        except Exception as err:
            try:
                v = v.reshape(a.shape)
            except Exception:
                raise ValueError("Failed to set value of '%s': %s." % (name, err))
            base[...] = v

    def get_val(self, name, flat=True):
        return self[name].flatten() if flat else self[name]

    def set_val(self, *a, **k):
        raise Unencodable('Vector.set_val')

    def __contains__(self, name):
        return name in self._store

    def __iter__(self):
        return iter(self._store)

    def keys(self):
        return list(self._store)

    def values(self):
        return [self[k] for k in self._store]

    def items(self):
        return [(k, self[k]) for k in self._store]

    def __len__(self):
        return sum(v.size for v in self._store.values())

    def asarray(self, copy=False):
        if not copy:
            raise Unencodable('Vector.asarray')
        return np.concatenate([v.flatten() for v in self._store.values()])


class Jac(object):
    """stand-in for the jacobian handed to compute_partials/linearize"""

    def __init__(self, comp):
        n = len(comp.pathname) + 1 if comp.pathname else 0
        self.info = {}
        for (of, wrt), meta in comp._subjacs_info.items():
            if not meta.get('dependent', True):
                continue
            if meta.get('diagonal') and isinstance(comp, ExplicitComponent) and of == wrt:
                continue
            rows, cols = meta.get('rows'), meta.get('cols')
            shape = meta['shape']
            val = meta.get('val')
            if meta.get('diagonal'):
                rows = cols = np.arange(shape[0])
            if hasattr(val, 'tocoo'):
                val = val.tocoo()
                rows, cols, val = val.row, val.col, val.data
            if rows is not None:
                data = np.empty(len(rows), dtype=object)
            else:
                data = np.empty(shape, dtype=object)
            if val is None:
                val = 0.
            v = A.lift_arr(np.array(val))
            if v.ndim and v.size == data.size:
                v = v.reshape(data.shape)
            data[...] = v
            self.info[of[n:], wrt[n:]] = {'rows': rows, 'cols': cols, 'shape': shape,
                                          'data': data.view(SymArray)}

    def snapshot(self):
        """what it holds now: the entries stay over the linearizations of a component"""
        j = object.__new__(Jac)
        j.info = {k: dict(d, data=d['data'].copy()) for k, d in self.info.items()}
        return j

    def __getitem__(self, key):
        if key not in self.info:
            raise KeyError('Variable name pair %s not found.' % (key,))
        return self.info[key]['data'][...]

    def __setitem__(self, key, val):
        if key not in self.info:
            raise KeyError('Variable name pair %s must first be declared.' % (key,))
        d = self.info[key]
        data = d['data'].view(np.ndarray)
        if isinstance(val, A.MaskedPick):
            val = val.materialise()
        if hasattr(val, 'tocoo'):
            raise Unencodable('scipy sparse partials')
        if isinstance(val, (list, tuple)):
            val = A.symarray(np.array([A.lift_arr(v) for v in val]))
        v = A.lift_arr(val)
        if d['rows'] is not None or v.ndim == 0:
            data[...] = v
        else:
            try:
                data[...] = np.atleast_2d(v).reshape(data.shape)
            except ValueError:
                if v.size == 1:
                    data[...] = v.reshape(())[()]
                else:
                    raise

    def __contains__(self, key):
        return key in self.info

    def __iter__(self):
        return iter(self.info)

    def keys(self):
        return list(self.info)

    def items(self):
        return [(k, self[k]) for k in self.info]

    def entries(self, key):
        """{(row, col): value}; repeated entries add up"""
        d = self.info[key]
        out = {}
        data = d['data'].view(np.ndarray)
        if d['rows'] is not None:
            for r, c, v in zip(d['rows'], d['cols'], data):
                k = (int(r), int(c))
                out[k] = E.add(out[k], v) if k in out else v
        else:
            for i in np.ndindex(*data.shape):
                out[i] = data[i]
        return out


_inits = [0]


class SymModel(object):

    def __init__(self, prob):
        self.prob = prob
        m = prob.model
        self.model = m
        self.comps = [c for c in m.system_iter(include_self=True, recurse=True, typ=Component)]
        self.conns = dict(m._conn_global_abs_in2out)
        self.shape = {}
        self.meta = {}
        self.sources = []
        self.order = {}
        self.owner = {}
        for k, c in enumerate(self.comps):
            for abs_name, meta in c._var_abs2meta['output'].items():
                self.shape[abs_name] = meta['shape']
                self.meta[abs_name] = meta
                self.owner[abs_name] = c
                self.order[abs_name] = k
                if isinstance(c, IndepVarComp):
                    self.sources.append(abs_name)
            for abs_name, meta in c._var_abs2meta['input'].items():
                self.shape[abs_name] = meta['shape']
                if meta.get('src_indices') is not None:
                    raise Unencodable('src_indices')
        self.prom = {}
        res = m._resolver
        for a in self.shape:
            iotype = 'output' if a in self.owner else 'input'
            self.prom[a] = res.abs2prom(a, iotype)
        # name a user can set/get a source by
        self.user = {}
        for a in self.sources:
            if a.startswith('_auto_ivc.'):
                for i, o in self.conns.items():
                    if o == a:
                        self.user[a] = self.prom[i]
                        break
            else:
                self.user[a] = self.prom[a]
        self.by_user = {v: k for k, v in self.user.items()}
        self.by_prom_out = {}
        for a in self.owner:
            if a not in self.sources:
                self.by_prom_out[self.prom[a]] = a
        self.vals = {}
        self.jacs = {}
        self.reset()
        self.feedback = []
        self.dropped = {}
        self.calls = []
        self.cut = {}          # outputs whose users see a symbol of its own instead of the value
        self.cutvals = {}

    def reset(self):
        self.vals = {}
        for a in self.owner:
            if a not in self.sources:
                _inits[0] += 1
                self.vals[a] = fresh('init%d:%s' % (_inits[0], a), tuple(self.shape[a]))
        self.invals = {}

    # ------------------------------------------------------------- evaluation
    def cut_at(self, name, value):
        """users of the output `name` see `value`; what it is computed to is in cutvals"""
        a = self.by_prom_out[name]
        self.cut[a] = symarray(value).reshape(self.shape[a])
        self.vals[a] = self.cut[a]

    def set(self, user_name, value):
        a = self.by_user[user_name]
        v = symarray(value)
        if v.shape != tuple(self.shape[a]):
            v = v.reshape(self.shape[a])
        self.vals[a] = v

    def get(self, name):
        if name in self.by_prom_out and self.by_prom_out[name] in self.cutvals:
            return self.cutvals[self.by_prom_out[name]]
        if name in self.by_prom_out:
            return self.vals[self.by_prom_out[name]]
        if name in self.by_user:
            return self.vals[self.by_user[name]]
        if name in self.vals:
            return self.vals[name]
        raise KeyError(name)

    def _local(self, comp, a):
        return a[len(comp.pathname) + 1:] if comp.pathname else a

    def _gather(self, comp, k):
        store = {}
        for a in comp._var_abs2meta['input']:
            src = self.conns[a]
            if src in self.order and self.order[src] >= k:
                self.feedback.append((comp.pathname, a, src))
            v = self.vals[src].view(np.ndarray).reshape(self.shape[a]).copy()
            store[self._local(comp, a)] = v.view(SymArray)
        return store

    def run(self):
        """one sweep: what run_model does for explicit feed-forward models"""
        self.feedback = []
        self.dropped = {}
        for k, comp in enumerate(self.comps):
            if isinstance(comp, IndepVarComp):
                continue
            ins = self._gather(comp, k)
            self.invals[comp.pathname] = ins
            outs = {self._local(comp, a): self.vals[a].copy() if a in self.cut else self.vals[a]
                    for a in comp._var_abs2meta['output']}
            if isinstance(comp, ExplicitComponent):
                with symbolic_numpy(), quiet(), self.keeping():
                    comp.compute(Vec(ins, True), Vec(outs))
            else:
                self.run_implicit(comp, ins, outs)
            for a in comp._var_abs2meta['output']:
                v = outs[self._local(comp, a)]
                if a in self.cut:
                    self.cutvals[a] = v
                    self.vals[a] = self.cut[a]
                else:
                    self.vals[a] = v

    @contextlib.contextmanager
    def keeping(self):
        """operands that disappear from the results of a component have to be defined, too"""
        E.dropped = self.dropped
        try:
            yield
        finally:
            E.dropped = None

    def run_implicit(self, comp, ins, outs):
        raise Unencodable('implicit component')

    def linearize(self):
        for comp in self.comps:
            if isinstance(comp, IndepVarComp):
                continue
            j = self.jacs.get(comp.pathname)
            if j is None:
                j = self.jacs[comp.pathname] = Jac(comp)
            if isinstance(comp, ExplicitComponent):
                if type(comp).compute_partials is not ExplicitComponent.compute_partials:
                    with symbolic_numpy(), quiet(), self.keeping():
                        comp.compute_partials(Vec(self.invals[comp.pathname], True), j)
            else:
                raise Unencodable('implicit component')

    def _wrt(self, w):
        if w in self.by_user:
            return self.by_user[w]
        a = self.by_prom_out[w]
        if a not in self.cut:
            raise KeyError(w)
        return a

    def totals(self, of, wrt):
        """{(of, wrt): object array (n, m)}, chain rule over the last linearization"""
        seeds = {}
        n = 0
        for w in wrt:
            a = self._wrt(w)
            size = int(np.prod(self.shape[a]))
            seeds[a] = (n, size)
            n += size
        d = {}
        cutrows = {}
        for a in self.sources + list(self.cut):
            size = int(np.prod(self.shape[a]))
            if a in seeds:
                off = seeds[a][0]
                d[a] = [{off + i: E.ONE} for i in range(size)]
            else:
                d[a] = [{} for _ in range(size)]
        for comp in self.comps:
            if isinstance(comp, IndepVarComp):
                continue
            j = self.jacs[comp.pathname]
            for a in comp._var_abs2meta['output']:
                rows = [dict() for _ in range(int(np.prod(self.shape[a])))]
                for i in comp._var_abs2meta['input']:
                    key = (self._local(comp, a), self._local(comp, i))
                    if key not in j.info:
                        continue
                    src = d.get(self.conns[i])
                    if src is None:
                        raise Unencodable('feedback connection in a total derivative')
                    for (r, c), v in j.entries(key).items():
                        if E.isc(v, 0):
                            continue
                        for k, dv in src[c].items():
                            t = E.mul(v, dv)
                            rows[r][k] = E.add(rows[r][k], t) if k in rows[r] else t
                if a in self.cut:
                    cutrows[a] = rows
                else:
                    d[a] = rows
        d = dict(d, **cutrows)
        out = {}
        for o in of:
            a = self.by_prom_out.get(o)
            if a is None:
                a = self.by_user[o]
            for w in wrt:
                off, size = seeds[self._wrt(w)]
                m = np.empty((len(d[a]), size), dtype=object)
                for r in range(len(d[a])):
                    for c in range(size):
                        m[r, c] = d[a][r].get(off + c, E.ZERO)
                out[o, w] = m
        return out


def setup_problem(model):
    with quiet():
        prob = Problem(reports=False) if 'reports' in Problem.__init__.__code__.co_varnames \
            else Problem()
        prob.model = model
        prob.setup(force_alloc_complex=False)
        prob.final_setup()
    return prob
