"""Load metrics satisfy their definitions for every profile."""
from symx.run import harness

H = []
NOT_COVERED = ['profiles_similarity and profiles_variety (distances are those of scipy), the edit distance (an optional '
               'library) and graph_metrics', 'more profiles and times than configured', 'rounding of floating point']
B = 'all loads, profiles of the shape given'


def unaltered(ctx, *pairs):
    ctx.check(ctx.And(*[ctx.eq(a, b) for a, b in pairs]), 'input unaltered')


@harness(H, 'energy', B, quick=[dict(shape=[2, 3]), dict(shape=[4])], thorough=[dict(shape=[5, 6])])
def energy(ctx, shape):
    np = ctx.np
    m = ctx.mod('metrics.loads')
    p = ctx.reals('p', shape)
    p0 = np.array(p)
    secs = ctx.int('secs', 1, 86400)
    out = m.total_energy_consumed(p, ctx.dt.timedelta(seconds=secs))
    rows = [p0] if len(shape) == 1 else list(p0)
    exp = [ctx.sum(ctx.els(r)) * secs for r in rows]
    ctx.check(ctx.close(out, exp[0] if len(shape) == 1 else np.array(exp), tol=1e-5), 'power times step size')
    minute = m.total_energy_consumed(p)
    ctx.check(ctx.close(minute, np.sum(p0, axis=-1) * 60, tol=1e-5), 'steps of one minute by default')
    unaltered(ctx, (p, p0))


@harness(H, 'diversity', B + ', loads not negative', quick=[dict(n=2, t=2), dict(n=3, t=2), dict(n=1, t=3)], thorough=[dict(n=3, t=3)])
def diversity(ctx, n, t):
    np = ctx.np
    m = ctx.mod('metrics.loads')
    p = ctx.reals('p', (n, t), 0, 10**6)
    p0 = np.array(p)
    cols = [ctx.sum([p0[i, j] for i in range(n)]) for j in range(t)]
    ctx.assume(ctx.Or(*[c > 0 for c in cols]))
    d = m.diversity_factor(p)
    peak, peaks = np.max(np.array(cols)), ctx.sum([np.max(p0[i]) for i in range(n)])
    ctx.check(ctx.close(d * peak, peaks, tol=1e-3), 'sum of peaks over peak of the sum')
    ctx.check(d >= 1 - 1e-9, 'at least one')
    ctx.check(ctx.close(d * m.coincidence_factor(p), 1.), 'coincidence factor is the inverse')
    ctx.check(ctx.eq(m.simultaneity_factor(p), m.coincidence_factor(p)), 'simultaneity is coincidence')
    if n == 1:
        ctx.check(ctx.close(d, 1.), 'one profile')
    unaltered(ctx, (p, p0))


@harness(H, 'coincident', B, quick=[dict(n=2, t=3)], thorough=[dict(n=4, t=5)])
def coincident(ctx, n, t):
    np = ctx.np
    m = ctx.mod('metrics.loads')
    p = ctx.reals('p', (n, t))
    p0 = np.array(p)
    out = m.time_coincident_demand(p)
    means = [ctx.sum([p0[i, j] for i in range(n)]) for j in range(t)]
    ctx.check(ctx.And(*[out * n >= x - 1e-6 for x in means]), 'at least every mean demand')
    ctx.check(ctx.Or(*[ctx.close(out * n, x) for x in means]), 'is a mean demand')
    unaltered(ctx, (p, p0))


@harness(H, 'duration', B + ', n profiles of t steps, k thresholds', quick=[dict(n=2, t=2, k=2), dict(n=0, t=3, k=2)],
         thorough=[dict(n=2, t=3, k=3)], max_paths=200000)
def duration(ctx, n, t, k):
    """n=0 stands for one profile given without its own axis."""
    np = ctx.np
    m = ctx.mod('metrics.loads')
    p = ctx.reals('p', (n, t) if n else t)
    p0 = np.array(p)
    given = bool(ctx.bool('given'))
    as_list = given and bool(ctx.bool('list'))
    th = ctx.reals('l', k)
    th0 = np.array(th)
    loads, dur = m.load_duration(p, (ctx.els(th) if as_list else th) if given else None)
    rows = [p0] if not n else list(p0)
    ctx.check(tuple(dur.shape) == (len(rows), len(loads)), 'one count per profile and threshold')
    ls = ctx.els(loads)
    ctx.check(ctx.And(*[a <= b for a, b in zip(ls, ls[1:])]), 'thresholds in order')
    if given:
        ctx.check(ctx.eq(loads, np.sort(th0)), 'thresholds are those given')
    else:
        for v in ctx.els(p0):
            ctx.check(ctx.Or(*[x == v for x in ls]), 'every load is a threshold')
        ctx.check(ctx.And(*[a < b for a, b in zip(ls, ls[1:])]), 'once')
    for i, r in enumerate(rows):
        for j, x in enumerate(ls):
            ctx.check(ctx.eq(dur[i, j], ctx.sum([ctx.ite(v >= x, 1, 0) for v in ctx.els(r)])), 'steps at or above')
        ctx.check(ctx.And(*[dur[i, j] >= dur[i, j + 1] for j in range(len(ls) - 1)]), 'never increases with the threshold')
    unaltered(ctx, (p, p0), (th, th0))


@harness(H, 'changes', B + ', n profiles of t steps, whole or real', quick=[dict(n=1, t=3, bins=2), dict(n=2, t=2, bins=3)],
         thorough=[dict(n=1, t=4, bins=2)], budget=900, max_paths=200000)
def changes(ctx, n, t, bins):
    np = ctx.np
    m = ctx.mod('metrics.loads')
    p = ctx.reals('p', (n, t), 0, 1000) if bool(ctx.bool('real')) else ctx.ints('p', (n, t), 0, 1000)
    p0 = np.array(p)
    norm = bool(ctx.bool('normalize'))
    ch = [abs(p0[i, j] - p0[i, j + 1]) for i in range(n) for j in range(t - 1)]
    top = np.max(np.array(ch))
    out, edges = m.cumulative_changes_in_demand(p, bins=bins, **({} if norm else {'normalize': False}))
    o = ctx.els(out)
    ctx.check(len(o) == bins and len(edges) == bins + 1, 'one value per interval')
    ctx.check(ctx.And(*[a <= b for a, b in zip(o, o[1:])]), 'non-decreasing')
    ctx.check(ctx.And(o[0] >= 0, ctx.close(o[-1], 1.)), 'ends at one')
    if bool(top > 0):
        # unless a change lies on an edge
        for i in range(bins - 1):
            lim = top * (i + 1) / bins
            ctx.check(ctx.close(edges[i + 1], ((i + 1) / bins) if norm else lim, tol=1e-6), 'edges divide the range evenly')
            below = ctx.sum([ctx.ite(c < lim, 1, 0) for c in ch])
            at = ctx.sum([ctx.ite(ctx.And(c <= lim + 1e-6, c >= lim - 1e-6), 1, 0) for c in ch])
            ctx.check(ctx.Implies(at == 0, ctx.close(o[i] * len(ch), below)), 'share of the changes below the edge')
    unaltered(ctx, (p, p0))


@harness(H, 'changes_edges', B + ', three given edges', quick=[dict(t=3)], thorough=[dict(t=4)], budget=900, max_paths=200000)
def changes_edges(ctx, t):
    np = ctx.np
    m = ctx.mod('metrics.loads')
    p = ctx.reals('p', (1, t), 0, 1000)
    p0 = np.array(p)
    norm = bool(ctx.bool('normalize'))
    e = ctx.reals('e', 3)
    ctx.assume(ctx.And(e[0] < e[1], e[1] < e[2]))
    ch = [abs(p0[0, j] - p0[0, j + 1]) for j in range(t - 1)]
    top = np.max(np.array(ch))
    if norm:
        ctx.assume(ctx.And(e[0] <= 0, e[2] >= 1, top > 1e-3))
        scaled = [c / top for c in ch]
    else:
        scaled = ch
    e0 = np.array(e)
    inside = ctx.And(*[ctx.And(c >= e0[0], c <= e0[2]) for c in scaled])
    ctx.assume(ctx.And(*[ctx.Or(c > x + 1e-6, c < x - 1e-6, ctx.And(c == x, x == e0[0])) for c in scaled for x in
                         ((e0[0], e0[1], e0[2]) if not norm else (e0[1],))]))
    raised, res = ctx.raises(lambda: m.cumulative_changes_in_demand(p, normalize=norm, bin_edges=e), ValueError)
    ctx.check(ctx.Iff(raised, ctx.Not(inside)), 'edges that do not hold all changes are refused, others accepted')
    unaltered(ctx, (p, p0), (e, e0))
    if raised:
        return
    out, edges = res
    ctx.check(ctx.eq(edges, e0), 'edges as given')
    o = ctx.els(out)
    ctx.check(len(o) == 2, 'one value per interval')
    ctx.check(ctx.close(o[1], 1.), 'ends at one')
    ctx.check(ctx.close(o[0] * len(ch), ctx.sum([ctx.ite(c < e0[1], 1, 0) for c in scaled])), 'share of the changes below the edge')


@harness(H, 'rmse', B, quick=[dict(n=2)], thorough=[dict(n=4)])
def rmse(ctx, n):
    np = ctx.np
    f = ctx.mod('metrics.errors').RMSE
    x, y = ctx.reals('x', n, -1000, 1000), ctx.reals('y', n, -1000, 1000)
    x0, y0 = np.array(x), np.array(y)
    r = f(x, y)
    ctx.check(f(x, np.array(x)) == 0, 'zero for identical data')
    ctx.check(ctx.And(r >= 0, ctx.close(r * r * n, ctx.sum([(a - b) * (a - b) for a, b in zip(ctx.els(x0), ctx.els(y0))]), tol=1e-3)),
              'root of the mean square')
    s = f(y, x)
    ctx.check(ctx.close(r * r, s * s, tol=1e-6), 'symmetric')
    unaltered(ctx, (x, x0), (y, y0))


@harness(H, 'states', 'all states 0..2; a and b patterns of t times', quick=[dict(a=2, b=1, t=3)], thorough=[dict(a=2, b=2, t=4)])
def states(ctx, a, b, t):
    np = ctx.np
    f = ctx.mod('metrics.states').average_state_metric
    x, y = ctx.ints('x', (a, t), 0, 2), ctx.ints('y', (b, t), 0, 2)
    x0, y0 = np.array(x), np.array(y)
    e = f(x, y, average_over_timestep=False)
    ctx.check(tuple(e.shape) == (t,), 'one error per time')
    for j in range(t):
        d = ctx.sum(ctx.els(x0[:, j])) * b - ctx.sum(ctx.els(y0[:, j])) * a
        ctx.check(ctx.close(e[j] * a * b, ctx.ite(d >= 0, d, -d)), 'difference of the averages')
    ctx.check(ctx.close(f(x, y) * t, ctx.sum(ctx.els(e))), 'average over time')
    ctx.check(ctx.close(f(x, y), f(y, x)), 'symmetric')
    ctx.check(ctx.close(f(x, np.concatenate((x, x))), 0.), 'zero for the same averages')
    sp = ctx.mod('metrics.states').sparsity
    s = sp(x)
    ctx.check(ctx.close(s * a * t, ctx.sum([ctx.ite(v > 0, 0, 1) for v in ctx.els(x0)])), 'share of zero elements')
    unaltered(ctx, (x, x0), (y, y0))


@harness(H, 'state_durations', 'all states 0..k-1; a and b patterns of t times', quick=[dict(a=1, b=1, t=3, k=2)],
         thorough=[dict(a=2, b=1, t=3, k=2), dict(a=1, b=1, t=4, k=3)], max_paths=400000)
def state_durations(ctx, a, b, t, k):
    np = ctx.np
    ms = ctx.mod('metrics.states')
    f = ms.state_duration_distribution_metric
    x, y = ctx.ints('x', (a, t), 0, k - 1), ctx.ints('y', (b, t), 0, k - 1)
    x0, y0 = np.array(x), np.array(y)
    d = {int(s): v for s, v in f(x, y).items()}
    r = {int(s): v for s, v in f(y, x).items()}
    same = f(x, np.concatenate((x, x)))
    full = {int(s): v for s, v in f(x, y, average_over_timestep=False).items()}
    seen = {int(v) for v in ctx.els(x0)} | {int(v) for v in ctx.els(y0)}
    ctx.check(set(d) == set(r) == set(full) == seen, 'every state of either')
    for s in d:
        ctx.check(ctx.And(ctx.close(d[s], r[s]), d[s] >= 0, d[s] <= 1), 'symmetric, between zero and one')
        ctx.check(len(full[s]) == t + 1 and bool(ctx.close(ctx.sum(ctx.els(full[s])), d[s] * (t + 1))), 'average over durations')
    for s in same:
        ctx.check(ctx.close(same[s], 0.), 'zero for identical distributions')
    unaltered(ctx, (x, x0), (y, y0))
