"""Einstein summation."""
from checks.common import *

PROP = 'C04'
TITLE = 'Einstein summation'
ASSUMPTIONS = ASSUME


def s_einsum(ops, ins, out):
    """ops: arrays, ins: tuples of axis labels, out: labels of the result (() -> shape (1,))"""
    ops = [raw(o) for o in ops]
    size = {}
    for a, l in zip(ops, ins):
        for k, n in zip(l, a.shape):
            assert size.setdefault(k, n) == n
    summed = [k for k in size if k not in out]
    shp = tuple(size[k] for k in out)
    o = obj(shp)
    for i in np.ndindex(*shp):
        at = dict(zip(out, i))
        ts = []
        for c in np.ndindex(*[size[k] for k in summed]):
            at.update(zip(summed, c))
            ts.append(sprod(a[tuple(at[k] for k in l)] for a, l in zip(ops, ins)))
        o[i] = ssum(ts)
    if shp == ():
        o = o.reshape((1,))
    return arr(o)


# (subscripts, sizes of the labels)
SUBS = [
    'i->i', 'ij->ij', 'ij->ji', 'ijk->kij', 'ijkl->ljki', 'i->', 'ij->', 'ijk->', 'ij->i', 'ij->j', 'ijk->ik',
    'ijk->j', 'ijk->ki', 'i,i->', 'ij,ij->', 'i,j->ij', 'i,j->ji', 'ij,j->i', 'ij,i->j',
    'ij,jk->ik', 'ij,jk->ki', 'ij,jk->', 'ij,kl->ijkl', 'ij,kl->lkji', 'i,ij->j', 'i,ijk->jk',
    'ijk,j->ik', 'ijk,kj->i', 'ijk,kl->ijl', 'ij,ij->ij', 'i,i->i', 'ij,i->ij', 'ij,j->ji',
    'ij,jk,kl->il', 'i,j,k->ijk', 'i,j,k->kji', 'i,ij,j->', 'i,ij,jk->k', 'ij,kl,jl->ik',
    'ij,ij,ij->', 'i,i,i->i', 'i,j,k,l->iljk',
]
SIZES = {'i': 2, 'j': 3, 'k': 2, 'l': 2}


def parse(sub):
    l, r = sub.split('->')
    return [tuple(t) for t in l.split(',')], tuple(r)


def new_op(ins, out):
    # labels of the newer interface are arbitrary hashable objects
    lab = {'i': 'rows', 'j': 1, 'k': 'time', 'l': 7}
    o = [tuple(lab[k] for k in t) for t in ins]
    return o + ([tuple(lab[k] for k in out)] if out else [])


def build(sub, api, fmt):
    ins, out = parse(sub)
    if api == 'old':
        return lambda *v: ot.einsum(*v, subscripts=sub, partial_format=fmt)
    return lambda *v: ot.einsum_new_api(*v, operation=new_op(ins, out), partial_format=fmt)


def reuse(ins, which):
    """operand pattern: index of the variable used at each place"""
    return which


BOUNDS = dict(BOUNDS, subscripts='; '.join(SUBS), label_sizes=str(SIZES) + ' and permuted sizes',
              apis='einsum and einsum_new_api, dense and sparse partials',
              operands=', '.join(MODES) + '; one variable at any set of places of equal shape')


def cases(tier):
    out = []
    sizes = [SIZES, {'i': 3, 'j': 2, 'k': 1, 'l': 2}]
    if tier == 'thorough':
        sizes.append({'i': 2, 'j': 2, 'k': 3, 'l': 3})
    for sub in SUBS:
        ins, res = parse(sub)
        for zi, z in enumerate(sizes):
            shapes = [tuple(z[k] for k in t) for t in ins]
            if np.prod([np.prod(s) for s in shapes]) > 300 and tier == 'quick':
                continue
            names = 'abcd'[:len(ins)]
            for api in ('old', 'new'):
                for fmt in ('dense', 'sparse'):
                    if zi and tier == 'quick' and api == 'new':
                        continue
                    out.append(op_case('%s %s %s %d' % (sub, api, fmt, zi), build(sub, api, fmt),
                                       dict(zip(names, shapes)),
                                       lambda *v, ins=ins, res=res: s_einsum(v, ins, res)))
    # where operands come from
    for sub in ('ij,jk->ik', 'ij->ji', 'i,ij,jk->k'):
        ins, res = parse(sub)
        shapes = [tuple(SIZES[k] for k in t) for t in ins]
        names = 'abcd'[:len(ins)]
        for m in MODES[1:]:
            for fmt in ('dense', 'sparse'):
                for api in ('old', 'new'):
                    out.append(op_case('%s %s %s %s' % (sub, api, fmt, m), build(sub, api, fmt),
                                       dict(zip(names, shapes)),
                                       lambda *v, ins=ins, res=res: s_einsum(v, ins, res), mode=m))
    # the same variable at several places (labels all of size 2)
    z2 = dict.fromkeys('ijkl', 2)
    pats = {2: [(0, 0)], 3: [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1)],
            4: [(0, 1, 0, 1), (0, 0, 1, 1), (0, 1, 2, 0)]}
    for sub in SUBS:
        ins, res = parse(sub)
        shapes = [tuple(z2[k] for k in t) for t in ins]
        for pat in pats.get(len(ins), []):
            if any(shapes[p] != shapes[q] for p in range(len(pat)) for q in range(p)
                   if pat[p] == pat[q]):
                continue
            n = max(pat) + 1
            inputs = {'abcd'[k]: shapes[pat.index(k)] for k in range(n)}
            for fmt in ('dense', 'sparse'):
                for m in ('input', 'expr') if tier == 'thorough' else ('input',):
                    out.append(op_case('%s %s places %s %s' % (sub, fmt, pat, m),
                                       lambda *v, sub=sub, fmt=fmt, pat=pat:
                                       build(sub, 'old', fmt)(*[v[p] for p in pat]), inputs,
                                       lambda *v, ins=ins, res=res, pat=pat:
                                       s_einsum([v[p] for p in pat], ins, res), mode=m))
    # result used by another operation
    out.append(op_case('einsum of einsum', lambda a, b: ot.einsum(
        ot.einsum(a, b, subscripts='ij,jk->ik'), a, subscripts='ik,ij->kj'),
        {'a': (2, 3), 'b': (3, 2)}, lambda a, b: s_einsum(
            [s_einsum([a, b], ['ij', 'jk'], tuple('ik')), a], ['ik', 'ij'], tuple('kj'))))
    return out
