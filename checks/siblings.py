"""Variants of one operation that are easily taken for each other: the same kind of operation with
other shapes of the same size, other axes, other constants, other keys."""
from checks.common import *
from checks import c03, c04, c05, c06, c07, c08, c09, c10


def variants():
    """{operation: [(label, build, shapes of the operands, spec)]}"""
    out = {}

    def add(f, label, build, shapes, spec):
        out.setdefault(f, []).append((label, build, shapes, spec))

    for fmt in ('dense', 'sparse'):
        for api in ('old', 'new'):
            for sub, sizes in [('ij->ji', [(2, 3), (3, 2), (1, 6)]), ('ij->i', [(2, 3), (3, 2)]),
                               ('ij->', [(2, 3), (3, 2)]), ('i,j->ij', [(2, 3), (3, 2)]),
                               ('ij,j->i', [(2, 3), (3, 2)]), ('ij,ij->j', [(2, 3), (3, 2)])]:
                if api == 'new' and sub not in ('ij->ji', 'ij,j->i'):
                    continue
                ins, res = c04.parse(sub)
                for z in sizes:
                    z = dict(zip('ij', z))
                    add('einsum %s %s %s' % (sub, fmt, api), str(z), c04.build(sub, api, fmt),
                        [tuple(z[k] for k in t) for t in ins],
                        lambda *v, ins=ins, res=res: c04.s_einsum(v, ins, res))
        for sub in ('ij->ij', 'ij->ji', 'ij->i', 'ij->j', 'ij->'):
            ins, res = c04.parse(sub)
            add('einsum (2,2) %s' % fmt, sub, c04.build(sub, 'old', fmt), [(2, 2)],
                lambda *v, ins=ins, res=res: c04.s_einsum(v, ins, res))
        for sub in ('ij,jk->ik', 'ij,jk->ki', 'ij,kj->ik', 'ij,ij->ij'):
            ins, res = c04.parse(sub)
            add('einsum (2,2)(2,2) %s' % fmt, sub, c04.build(sub, 'old', fmt), [(2, 2)] * 2,
                lambda *v, ins=ins, res=res: c04.s_einsum(v, ins, res))
    for f, avg in ((ot.sum, False), (ot.average, True)):
        nm = f.__name__
        for s, ax in [((2, 3), (0,)), ((3, 2), (0,)), ((2, 3), (1,)), ((3, 2), (1,)), ((6,), None),
                      ((2, 3), None), ((1, 6), (0,)), ((6, 1), (1,))]:
            for n in (1, 2):
                add('%s of %d' % (nm, n), '%s axes %s' % (s, ax),
                    lambda *v, f=f, ax=ax: f(*v, axes=ax), [s] * n,
                    lambda *v, ax=ax, avg=avg: c05.reduce_(v, ax, avg))
        for ax in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (-1,)):
            add('%s (2,2,2)' % nm, str(ax), lambda v, f=f, ax=ax: f(v, axes=ax), [(2, 2, 2)],
                lambda v, ax=ax, avg=avg: c05.reduce_([v], ax, avg))
        for n in (1, 2, 3):
            add('%s of several' % nm, str(n), lambda *v, f=f: f(*v), [(2,)] * n,
                lambda *v, avg=avg: c05.reduce_(v, None, avg))
    for a, b in [((2, 3), (6,)), ((3, 2), (6,)), ((6,), (2, 3)), ((6,), (3, 2)), ((2, 3), (3, 2)),
                 ((1, 6), (2, 3))]:
        add('reshape', '%s->%s' % (a, b), lambda x, b=b: ot.reshape(x, b), [a],
            lambda x, b=b: c06.s_reshape(x, b))
    for s in [(2, 3), (3, 2), (1, 6), (6,), (1, 2, 3), (3, 2, 1)]:
        add('transpose', str(s), lambda x: ot.transpose(x), [s],
            lambda x, n=len(s): c06.s_perm(x, tuple(range(n))[::-1]))
    for s, p in [((2, 1, 3), (2, 0, 1)), ((2, 1, 3), (1, 2, 0)), ((3, 2, 1), (2, 0, 1)),
                 ((2, 2, 2), (0, 2, 1)), ((2, 2, 2), (2, 0, 1)), ((2, 2, 2), (1, 2, 0))]:
        op = 'ijk->' + ''.join('ijk'[k] for k in p)
        add('reorder_axes', '%s %s' % (s, op), lambda x, op=op: ot.reorder_axes(x, op), [s],
            lambda x, p=p: c06.s_perm(x, p))
    for sub, a, b in [('i->ij', (2,), (2, 2)), ('i->ji', (2,), (2, 2)), ('i->ij', (2,), (2, 3)),
                      ('i->ji', (2,), (3, 2)), ('i->ij', (3,), (3, 2)), ('i->jik', (2,), (2, 2, 2)),
                      ('i->ijk', (2,), (2, 2, 2))]:
        add('expand', '%s %s' % (sub, b), lambda x, sub=sub, b=b: ot.expand(x, b, sub), [a],
            lambda x, sub=sub, b=b: c06.s_expand(x, b, sub))
    for b in ((2, 3), (3, 2), (6,)):
        add('expand a number', str(b), lambda x, b=b: ot.expand(x, b), [(1,)],
            lambda x, b=b: c06.s_expand(x, b))
    for sa, sb in [((2, 3), (3, 2)), ((3, 2), (2, 3)), ((2, 3), (3, 1)), ((1, 2), (2, 3))]:
        add('matmat', '%s%s' % (sa, sb), lambda a, b: ot.matmat(a, b), [sa, sb], c03.s_matmat)
    for sa, sb in [((2, 3), (3,)), ((3, 2), (2,)), ((1, 3), (3,))]:
        add('matvec', '%s%s' % (sa, sb), lambda a, b: ot.matvec(a, b), [sa, sb], c03.s_matvec)
    for sa, sb in [((2,), (3,)), ((3,), (2,)), ((2, 1), (3,)), ((1, 2), (3,)), ((1,), (6,))]:
        add('outer', '%s%s' % (sa, sb), lambda a, b: ot.outer(a, b), [sa, sb], c03.s_outer)
    for axes in (([0], [0]), ([0], [1]), ([1], [0]), ([1], [1]), ([0, 1], [1, 0])):
        if len(axes[0]) == 2:
            continue
        add('inner', str(axes), lambda a, b, axes=axes: ot.inner(a, b, axes=axes), [(2, 2)] * 2,
            lambda a, b, axes=axes: c03.s_inner(a, b, axes))
    for s, ax in [((3, 3), 0), ((3, 3), 1), ((2, 3), 1), ((3, 2), 0), ((3, 3), -1)]:
        add('dot', '%s axis %d' % (s, ax), lambda a, b, ax=ax: ot.dot(a, b, axis=ax), [s, s],
            lambda a, b, ax=ax: c03.s_dot(a, b, ax))
        add('cross', '%s axis %d' % (s, ax), lambda a, b, ax=ax: ot.cross(a, b, axis=ax), [s, s],
            lambda a, b, ax=ax: c03.s_cross(a, b, ax))
    for f, mx in ((ot.max, True), (ot.min, False)):
        for s, ax, rho in [((2, 2), None, 20.), ((2, 2), 0, 20.), ((2, 2), 1, 20.),
                           ((2, 2), 0, 5.), ((1, 4), 1, 20.), ((4, 1), 0, 20.)]:
            kw = dict(rho=rho) if ax is None else dict(rho=rho, axis=ax)
            add(f.__name__, '%s axis %s rho %s' % (s, ax, rho), lambda x, f=f, kw=kw: f(x, **kw),
                [s], lambda x, ax=ax, rho=rho, mx=mx:
                c07.s_all(x, rho, mx) if ax is None else c07.s_axis(x, ax, rho, mx))
        for rho in (20., 5.):
            add('%s of two' % f.__name__, str(rho), lambda x, y, f=f, rho=rho: f(x, y, rho=rho),
                [(2,), (2,)], lambda x, y, rho=rho, mx=mx: c07.s_elem([x, y], rho, mx))
    for s, p, ax in [((2, 2), 2, None), ((2, 2), 4, None), ((2, 2), 2, 0), ((2, 2), 2, 1),
                     ((2, 2), 4, 0), ((1, 4), 2, 1), ((4, 1), 2, 0)]:
        kw = dict(pnorm_type=p) if ax is None else dict(pnorm_type=p, axis=ax)
        axs = None if ax is None else (ax,)
        add('pnorm', '%s p=%s axis %s' % (s, p, ax), lambda x, kw=kw: ot.pnorm(x, **kw), [s],
            lambda x, p=p, axs=axs: c08.s_norm(x, p, axs))
    for s, ax in [((1,), 'x'), ((1,), 'y'), ((1,), 'z'), ((2,), 'x'), ((2,), 'z'), ((1, 2), 'z')]:
        add('rotmat', '%s %s' % (s, ax), lambda t, ax=ax: ot.rotmat(t, ax), [s],
            lambda t, ax=ax: c09.s_rot(t, ax))
    for s, k in [((4,), slice(1, 3)), ((4,), slice(2, 0, -1)), ((4,), slice(0, 4, 2)),
                 ((4,), slice(0, 2)), ((4,), slice(1, 4, 2)), ((4,), 0), ((4,), 3)]:
        add('entries', '%s%s' % (s, c10.show(k)), lambda x, k=k: x[k] * 1, [s],
            lambda x, k=k: c10.read(x, k))
    a = slice(None)
    for s, k in [((2, 3), (0, a)), ((2, 3), (1, a)), ((2, 3), (a, 1)), ((3, 2), (a, 1)),
                 ((3, 2), (1, a)), ((2, 3), (a, slice(2, 0, -1))), ((2, 3), (a, slice(1, 3))),
                 ((2, 3), (slice(0, 1), a))]:
        add('entries of rank 2', '%s%s' % (s, c10.show(k)), lambda x, k=k: x[k] * 1, [s],
            lambda x, k=k: c10.read(x, k))
    c1, c2, c3 = np.array([2., 3.]), np.array([3., 2.]), np.array([[2.], [3.]])
    for label, build, shapes, spec in [
            ('x + 1', lambda x: x + 1, (2,), lambda e: e + 1),
            ('x + 1 of (2, 1)', lambda x: x + 1, (2, 1), lambda e: e + 1),
            ('x + 2', lambda x: x + 2, (2,), lambda e: e + 2),
            ('x - 2', lambda x: x - 2, (2,), lambda e: e - 2),
            ('2 - x', lambda x: 2 - x, (2,), lambda e: 2 - e),
            ('2 * x', lambda x: 2 * x, (2,), lambda e: 2 * e),
            ('3 * x', lambda x: 3 * x, (2,), lambda e: 3 * e),
            ('x ** 2', lambda x: x ** 2, (2,), lambda e: e * e),
            ('x ** 3', lambda x: x ** 3, (2,), lambda e: e * e * e),
            ('-x', lambda x: -x, (2,), lambda e: -e),
            ('x * x', lambda x: x * x, (2,), lambda e: e * e),
            ('x / 2', lambda x: x / 2, (2,), lambda e: e / 2)]:
        add('arithmetic', label, build, [shapes], lambda x, spec=spec: emap(spec, x))
    for c in (c1, c2, c3):
        s = c.shape
        for nm, f in (('+', lambda a, b: a + b), ('*', lambda a, b: a * b)):
            add('array constants', '%s %s' % (nm, c.tolist()), lambda x, c=c, f=f: f(x, c), [s],
                lambda x, c=c, f=f: emap(lambda a, b: f(a, b), x, A.symarray(c)))
    for nm in ('sin', 'cos', 'sinh', 'cosh', 'tanh', 'exp', 'arctan'):
        for s in ((2,), (1, 2)):
            add('functions', '%s %s' % (nm, s), lambda x, nm=nm: getattr(ot, nm)(x), [s],
                lambda x, nm=nm: emap(lambda e: getattr(e, nm)(), x))
    return out




def single(f, v):
    """the variant as a model of its own"""
    label, build, shapes, spec = v
    return op_case('%s %s' % (f, label), build, dict(zip('abcd', shapes)), spec,
                   domain=(lambda *x: positive(x)) if f == 'pnorm' else None,
                   sample=uni(.4, 1.6, *shapes) if f == 'pnorm' else uni(-.7, .9, *shapes),
                   **kw_of(f))


def kw_of(f):
    return dict(definedness=False) if f.split()[0] in ('max', 'min') else {}


def positive(xs):
    return [e > 0 for x in xs for e in els(x)]


def together(f, vs, share=False):
    """the variants in one model; of the same operands where they have the same shapes"""
    inputs, uses = {}, []
    for k, (label, build, shapes, spec) in enumerate(vs):
        names = ['abcd'[j] + ('' if share and shapes == vs[0][2] else str(k))
                 for j in range(len(shapes))]
        inputs.update(zip(names, shapes))
        uses.append(names)

    def fn(g):
        x = {n: g.declare_input(n, shape=s, val=np.full(s, .7)) for n, s in inputs.items()}
        for k, (names, v) in enumerate(zip(uses, vs)):
            g.register_output('y%d' % k, v[1](*[x[n] for n in names]))

    def spec(ins):
        return {'y%d' % k: v[3](*[ins[n] for n in names])
                for k, (names, v) in enumerate(zip(uses, vs))}
    lo, hi = (.4, 1.6) if f == 'pnorm' else (-.7, .9)
    return Case('together %s: %s%s' % (f, ' | '.join(v[0] for v in vs),
                                       ' of the same' if share else ''),
                group(fn), inputs, ['y%d' % k for k in range(len(vs))], spec,
                domain=(lambda ins: positive(ins.values())) if f == 'pnorm' else None,
                sample=lambda r: {n: r.uniform(lo, hi, size=s) for n, s in inputs.items()},
                **kw_of(f))
