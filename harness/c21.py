"""External values override exactly where they are given."""
from symx.run import harness

H = []
NOT_COVERED = ['larger arrays than configured', 'external values that are infinite']
B = 'all values; every pattern of missing entries'


@harness(H, 'array', B, quick=[dict(shape=[3]), dict(shape=[2, 2])], thorough=[dict(shape=[6]), dict(shape=[2, 3]), dict(shape=[1, 1, 2])])
def array(ctx, shape):
    np = ctx.np
    util = ctx.mod('simulators.util')
    kind = ctx.choice('kind', ['real', 'int'])
    base = ctx.reals('b', shape) if kind == 'real' else ctx.ints('b', shape, -5, 5)
    ext = ctx.gaps('x', shape)
    b0, x0 = np.array(base), np.array(ext)
    out = util.assign_external_array(base, ext)
    ctx.check(tuple(out.shape) == tuple(shape), 'shape kept')
    miss = np.isnan(x0)
    for p in np.ndindex(*shape):
        if bool(miss[p]):
            ctx.check(ctx.eq(out[p], b0[p]), 'missing entries keep the simulated value')
        else:
            ctx.check(ctx.eq(out[p], x0[p]), 'given entries are replaced')
    ctx.check(ctx.eq(base, b0), 'simulated array unaltered')
    ctx.check(ctx.eq(ext, x0), 'external array unaltered')
    # the result is not tied to the arrays it was made from
    out[(0,) * len(shape)] = 77.
    ctx.check(ctx.And(ctx.eq(base, b0), ctx.eq(ext, x0)), 'the result can be changed without altering them')
    none = util.assign_external_array(base, None)
    ctx.check(ctx.eq(none, b0), 'nothing given, nothing replaced')


@harness(H, 'whole', B, quick=[dict(n=3)])
def whole(ctx, n):
    """Integer and boolean external values have no missing entries."""
    np = ctx.np
    util = ctx.mod('simulators.util')
    base = ctx.reals('b', n)
    ext = ctx.ints('x', n, -3, 3)
    out = util.assign_external_array(base, ext)
    ctx.check(ctx.eq(out, ext), 'all replaced')
    flags = ctx.bools('f', n)
    on = ctx.bools('o', n)
    f0 = np.array(flags)
    out = util.assign_external_array(flags, on)
    ctx.check(ctx.And(*[ctx.Iff(a, b) for a, b in zip(ctx.els(out), ctx.els(on))]), 'all flags replaced')
    ctx.check(ctx.And(*[ctx.Iff(a, b) for a, b in zip(ctx.els(flags), ctx.els(f0))]), 'flags unaltered')


@harness(H, 'dictionary', B, quick=[dict(n=2)], thorough=[dict(n=3)])
def dictionary(ctx, n):
    np = ctx.np
    util = ctx.mod('simulators.util')
    keys = ['dhw', 'space_heating', 'other']
    base = {k: ctx.reals(k, n) for k in keys}
    arrays = dict(base)
    b0 = {k: np.array(v) for k, v in base.items()}
    ext = {}
    for k in keys[:2]:
        w = ctx.choice('w_' + k, ['absent', 'none', 'given'])
        if w != 'absent':
            ext[k] = None if w == 'none' else ctx.gaps('x_' + k, n)
    x0 = {k: None if v is None else np.array(v) for k, v in ext.items()}
    out = util.assign_external_dict(base, ext)
    ctx.check(sorted(out) == sorted(keys), 'same quantities')
    for k in keys:
        x = x0.get(k)
        for i in range(n):
            if x is None or bool(np.isnan(x[i])):
                ctx.check(ctx.eq(out[k][i], b0[k][i]), 'not given: as simulated')
            else:
                ctx.check(ctx.eq(out[k][i], x[i]), 'given: replaced')
        ctx.check(ctx.eq(arrays[k], b0[k]), 'simulated arrays unaltered')
    ctx.check(sorted(ext) == sorted(x0), 'external dictionary keeps its keys')
    for k in ext:
        ctx.check(ext[k] is None if x0[k] is None else ctx.eq(ext[k], x0[k]), 'external data unaltered')
    same = util.assign_external_dict({k: v for k, v in arrays.items()}, None)
    ctx.check(ctx.And(*[ctx.eq(same[k], b0[k]) for k in keys]), 'no external data')
