"""Every form of every operation the other checks state, as a step of a larger model."""
import importlib

from checks.common import *

MODULES = ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c19')


def forms(tier, limit=12, per=60):
    """[(id, (build, inputs, spec, domain, sample, kw))] with every operand a declared input"""
    out = []
    for m in MODULES:
        cs = [c for c in importlib.import_module('checks.' + m).cases('quick')
              if getattr(c, 'form', None) and not c.params
              and all(x == 'input' for x in c.form[5].values())]
        small = [c for c in cs if sum(int(np.prod(s)) for s in c.inputs.values()) <= limit]
        # many enumerations differ in an index only; spread over those
        n = per if tier == 'quick' else 100000
        step = max(1, len(small) // n)
        for c in small[::step]:
            b, i, s, d, p, _, kw = c.form
            out.append(('%s %s' % (m, c.id), (b, i, s, d, p, kw)))
    return out



def form_case(id, form, fn, outs):
    """outs: {path of an output: function of (operands, value of the form)}"""
    build, inputs, spec, domain, sample, kw = form

    def ops(ins):
        return [2 * A.symarray(ins[n]) + 1 for n in inputs]

    def meaning(ins):
        us = ops(ins)
        y = spec(*us)
        return {n: f(us, y) for n, f in outs.items()}
    return Case(id, group(fn), inputs, sorted(outs), meaning,
                domain=(lambda ins: domain(*ops(ins))) if domain else None,
                sample=(lambda rng: {n: (np.asarray(v, float) - 1) / 2
                                     for n, v in zip(inputs, sample(rng))}) if sample else None,
                **dict(kw, history=1))


def twice(v):
    return emap(lambda e: 2 * e + 1, v)


def late_form(id, form, k):
    """operands are registered after the expression that reads them, and that one after a third;
    or none of them is registered"""
    build, inputs = form[:2]

    def fn(g):
        us = [2 * g.declare_input(n, shape=s, val=np.full(s, .7)) + 1 for n, s in inputs.items()]
        y = build(*us)
        g.register_output('z', 2 * y + 1)
        if k % 3:
            for n, u in reversed(list(zip(inputs, us))):
                g.register_output('u_' + n, u)
        if k % 3 > 1:
            g.register_output('y', y)
    outs = {'z': lambda us, y: twice(y)}
    if k % 3:
        for j, n in enumerate(inputs):
            outs['u_' + n] = lambda us, y, j=j: us[j]
    if k % 3 > 1:
        outs['y'] = lambda us, y: y
    return form_case(id, form, fn, outs)


def split_form(id, form, k):
    """operands come from a subsystem and the result goes to another; or the expression is in the
    subsystem between"""
    build, inputs, spec = form[:3]

    def first(g):
        for n, s in inputs.items():
            g.register_output('u_' + n, 2 * g.declare_input(n, shape=s, val=np.full(s, .7)) + 1)

    def middle(g):
        y = build(*[g.declare_input('u_' + n, shape=s, val=np.full(s, .7))
                    for n, s in inputs.items()])
        g.register_output('y', y)
        return y.shape

    def last(g, s):
        g.register_output('z', 2 * g.declare_input('y', shape=s, val=np.full(s, .7)) + 1)
    shape = A.lift_arr(spec(*[A.fresh(n, s) for n, s in inputs.items()])).shape

    def fn(g):
        if k % 2:
            g.add_subsystem('first', group(first)(), promotes=['*'])
            middle(g)
            with g.create_group('last') as h:
                last(h, shape)
        else:
            first(g)
            g.add_subsystem('middle', group(middle)(), promotes=['*'])
            last(g, shape)
    outs = {'z': lambda us, y: twice(y), 'y': lambda us, y: y}
    for j, n in enumerate(inputs):
        outs['u_' + n] = lambda us, y, j=j: us[j]
    return form_case(id, form, fn, outs)
