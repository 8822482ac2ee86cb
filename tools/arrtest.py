"""numpy on symbolic arrays against numpy on numbers: /opt/venv/bin/python tools/arrtest.py"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402
from symot import expr as E, arr as A, model, solve  # noqa: E402,F401

R = np.random.RandomState(3)
a = R.randint(-3, 4, (2, 3)).astype(float)
b = R.randint(1, 5, (2, 3)).astype(float)
c = R.randint(-3, 4, (3, 2)).astype(float)
v = R.randint(-3, 4, 3).astype(float)
w = R.randint(1, 4, 3).astype(float)
m = R.randint(-3, 4, (3, 3)).astype(float) + 5 * np.eye(3)
t = R.randint(-3, 4, (2, 3, 2)).astype(float)
V = dict(a=a, b=b, c=c, v=v, w=w, m=m, t=t)

F = '''
a+b; a-1; 2*a; a/b; b**2; b**-1; -a; abs(a); a@c; a@v; v@w; np.dot(a,c); a.dot(v); np.inner(v,w)
np.outer(v,w); np.tensordot(a,c,axes=(1,0)); np.tensordot(t,c,axes=((1,),(0,))); np.kron(v,w)
np.cross(v,w); np.einsum('ij,jk->ik',a,c); np.einsum('ij->j',a); np.einsum('ij,ij',a,b)
np.sum(a); np.sum(a,axis=0); a.sum(axis=1,keepdims=True); np.prod(b,axis=1); b.prod(); a.mean()
np.mean(a,axis=(0,)); np.average(a,axis=1); np.average(a,axis=1,weights=w); a.max(); np.max(a,axis=0)
np.amin(a,axis=1,keepdims=True); a.min(axis=0); np.maximum(a,b); np.minimum(a,0); np.clip(a,-1,2)
a.clip(-1,2); np.sign(a); np.square(a); np.where(a>0,a,b); np.where(a>=b); a[a>0]; np.abs(a)
np.round(a/b); np.round(a/b,2); (a/b).round(1); np.floor(a/b); np.ceil(a/b); np.trunc(a/b); np.rint(a/2)
a//b; a%b; a%2; np.fix(a/b); np.isclose(a,b); np.floor_divide(a,b); np.argmax(a); np.argmax(a,axis=1); a.argmin(axis=0); np.argsort(v); np.sort(a,axis=1); np.sort(v)
np.nonzero(a); np.flatnonzero(v); np.argwhere(a); np.count_nonzero(a); np.any(a>2); np.all(a>-9)
np.array_equal(a,a); np.allclose(a,a); np.copysign(b,a); np.heaviside(a,0.5); np.cumsum(a,axis=1)
np.cumprod(b,axis=0); np.diff(a,axis=1); np.transpose(a); a.T; np.swapaxes(t,0,2); np.moveaxis(t,0,-1)
np.rollaxis(t,2); t.transpose(2,0,1); np.reshape(a,(3,2)); a.reshape(-1); a.ravel(); a.flatten('F')
np.ravel(a); np.squeeze(a[:1]); np.expand_dims(v,0); v[None,:]; v[:,np.newaxis]; np.broadcast_to(v,(2,3))
np.tile(v,2); np.tile(v,(2,1)); np.repeat(v,2); np.repeat(a,2,axis=0); np.roll(v,1); np.flip(a,0)
np.concatenate([a,b]); np.concatenate([v,w]); np.stack([v,w]); np.hstack([v,w]); np.vstack([a,b])
np.append(v,w); np.block([[a,b],[b,a]]); np.diag(v); np.diag(m); np.diagonal(m); np.trace(m); np.eye(3)*m
np.diagflat(v); np.tril(m); np.triu(m); np.take(a,[0,1],axis=1); np.take_along_axis(v,np.array([2,0]),0)
a[[1,0]]; a[:,::-1]; a[np.ix_([0,1],[2,0])]; a[...,0]; t[:,1]; a.flat[2]; list(a.flat); np.linalg.norm(b)
np.linalg.norm(v,ord=2); np.linalg.det(m); np.linalg.inv(m); np.linalg.solve(m,v); np.linalg.solve(m,c)
np.linalg.multi_dot([a,c,a]); np.multiply(a,b); np.divide(a,b); np.power(b,2); np.negative(a)
np.add.reduce(a,axis=0); np.multiply.reduce(b,axis=1); np.maximum.reduce(a,axis=1); np.add.outer(v,w)
np.multiply.outer(v,w); np.maximum.accumulate(v); np.add.accumulate(a,axis=1); np.logical_and(a>0,b>1)
~(a>0); (a>0)&(b>2); (a>0)|(b>2); (a>0)*b; (a>0).astype(float); (a==0); (a!=0); np.isnan(a)
np.isfinite(a); np.zeros_like(a)+1; np.ones_like(a); np.full_like(a,3.); np.copy(a); a.copy(); np.split(v,3)
np.vdot(v,w); np.matmul(t,t[0].T); np.hypot(3*b,4*b); np.reciprocal(b); a.astype(float); np.fabs(a)
np.dstack([a,b]); np.column_stack([v,w]); np.apply_along_axis(np.sum,1,a); np.vectorize(lambda x:2*x)(a)
np.ptp(v); np.nansum(a); np.insert(v,1,5.); np.delete(v,1); a.tolist(); np.choose([0,1,0],[v,w])
np.select([v>0,v<0],[v,w],0.); np.piecewise(v,[v>0,v<=0],[lambda x:x,lambda x:-x]); np.meshgrid(v,w)
np.subtract.outer(v,w); np.float_power(b,2); np.remainder(a,b); sum(v); max(v); min(v); np.atleast_2d(v)
np.array([v,w]); np.asarray(a); np.ascontiguousarray(a); np.asfortranarray(a); np.shape(a); np.size(a)
np.sum(a*b,axis=1); (a*b).sum(); np.einsum('i,j->ij',v,w); np.einsum(v,[0],w,[1],[1,0]); a.squeeze()
np.indices(a.shape)[0]*a; np.rot90(a); np.put_along_axis; v.repeat(2); np.array_split(v,2); a.swapaxes(0,1)
np.linalg.matrix_power(m,2); np.linalg.outer(v,w); np.ndim(a); len(v); a.size; a.ndim; a.nbytes>0; a.item(0)
np.resize(v,5); np.pad(v,1); np.convolve(v,w); np.correlate(v,w); np.bincount([0,1,1]); np.interp
np.exp(0*a); np.log(b/b); np.sqrt(b*b); np.tensordot(a,b); np.nan_to_num(a); np.real(a); np.vander(v)
np.fliplr(a); np.flipud(a); np.outer(a,v); np.gradient; np.argmax(np.abs(v)); np.partition; np.median
np.add.reduceat(v,[0,1]); np.add(a,b,where=a>0,out=np.array(b)); np.sum(a,axis=0,out=np.array(v))
np.dot(a,c,out=np.zeros((2,2))); np.einsum('ij,jk->ik',a,c,out=np.zeros((2,2))); np.multiply(a,b,out=np.zeros((2,3)))
'''


def same(x, y):
    if isinstance(x, (tuple, list)):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if x is y or callable(x):
        return True
    p = np.asarray(A.lift_arr(x) if not isinstance(x, np.ndarray) else x)
    q = np.asarray(y)
    if p.shape != q.shape:
        return False
    p = [num(e) for e in p.flat]
    return np.allclose(np.array(p, dtype=float), q.astype(float).ravel())


def num(e):
    if isinstance(e, E.SymBool):
        return bool(e)
    return float(E.evaluate([E.lift(e)], {})[0])


src = '''
import numpy as np
def run(expr, env):
    return eval(expr, dict(env, np=np, __name__='omtools.x'))
def muts(env):
    a, b, c, v, w, m, t = (np.array(env[k]) for k in 'abcvwmt')
    r = []
    z = np.zeros((3, 3)); z[0, :] = v; z[1] += w; z[:, 2] = 1.; z[2, 2] = v[0]; r.append(z)
    z = np.zeros((3, 3)); np.fill_diagonal(z, v); r.append(z)
    z = np.zeros(3); np.add.at(z, [0, 0, 2], v); r.append(z)
    z = np.zeros((2, 3)); z[a > 0] = a[a > 0]; z[a <= 0] = b[a <= 0]; r.append(z)
    z = np.zeros((2, 3)); z[:] = a; z *= b; z -= 1; z /= 2; r.append(z)
    z = np.empty((2, 3)); np.copyto(z, a); r.append(z)
    z = np.zeros(6); z[::2] = v; z[1::2] = w; r.append(z)
    z = np.zeros((3, 3)); z[np.arange(3), np.arange(3)] = v; r.append(z)
    z = np.zeros((3, 3)); z.flat[::4] = v; r.append(z)
    z = np.zeros((2, 3)); np.put(z, [0, 4], v[:2]); r.append(z)
    z = a.copy(); z.sort(axis=1); r.append(z)
    z = np.zeros((2, 3)); 
    for i, x in np.ndenumerate(a):
        z[i] = x * b[i]
    r.append(z)
    z = np.ones(3); np.multiply(v, w, out=z); r.append(z)
    z = np.zeros((2, 3)); z[np.where(a > 0)] = 7.; r.append(z)
    z = np.zeros(3); z[np.argmax(v)] = 1.; r.append(z)
    z = np.zeros((2, 3)); z[:, 0], z[:, 1] = c[0], c[1]; r.append(z)
    z = np.full((2, 2), 3.); z += c[:2]; r.append(z)
    z = np.array([[v[0], v[1]], [0., 1.]]); r.append(z)
    z = np.concatenate([np.zeros(2), v]); r.append(z)
    return r
'''
env = {'__name__': 'omtools.arrtest'}
exec(src, env)
bad = []
n = 0
for e in F.replace('\n', ';').split(';'):
    e = e.strip()
    if not e:
        continue
    n += 1
    want = env['run'](e, {k: x.copy() for k, x in V.items()})
    try:
        with A.symbolic_numpy():
            got = env['run'](e, {k: A.symarray(x) for k, x in V.items()})
        if not same(got, want):
            bad.append((e, 'differs', got, want))
    except Exception as ex:
        bad.append((e, type(ex).__name__, str(ex)[:100]))
want = env['muts'](V)
with A.symbolic_numpy():
    got = env['muts']({k: A.symarray(x) for k, x in V.items()})
for i, (x, y) in enumerate(zip(got, want)):
    n += 1
    if not same(x, y):
        bad.append(('mutation %d' % i, x, y))
for x in bad:
    print(*x)
print('%d forms, %d not interpreted or different' % (n, len(bad)))
sys.exit(any('differs' in str(x[1]) or 'mutation' in x[0] for x in bad))
