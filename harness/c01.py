"""Categorical sampling inverts the distribution it is given."""
from symx.run import harness

H = []
NOT_COVERED = ['distributions with more classes or batches with more rows than the stated bounds',
               'the statistical quality of numpy.random']

B = 'classes n and samples m as configured, every probability in [0,1], every draw in [0,1)'


def interval(ctx, cdf, i, u, label, pdf=None):
    """i is the index whose cumulative interval contains u."""
    n = len(cdf)
    ctx.check(ctx.And(i >= 0, i < n), label + ': valid index')
    for j in range(n):
        lo = cdf[j - 1] if j else 0.0
        hi = cdf[j]
        here = i == j
        inside = ctx.And(u >= lo, u < hi)
        # total reached: draws at or above the last value belong to the last possible class
        tail = ctx.And(u >= cdf[n - 1], hi == cdf[n - 1], hi > lo)
        ctx.check(ctx.Implies(here, ctx.Or(inside, tail)), label + ': interval of the draw')
        ctx.check(ctx.Implies(here, hi > lo), label + ': possible outcome')


def cum(ctx, p):
    out, acc = [], 0.0
    for e in p:
        acc = acc + e
        out.append(acc)
    return out


def short(ctx, name, n):
    """A distribution whose total falls short of one by up to 1e-9."""
    p = [ctx.real('%s_%d' % (name, i), 0, 1) for i in range(n)]
    s = ctx.sum(p)
    ctx.assume(ctx.And(s <= 1.0, s >= 1 - 1e-9))
    return p


@harness(H, 'one_pdf', B, quick=[dict(n=3, m=2), dict(n=1, m=1), dict(n=4, m=1)], thorough=[dict(n=6, m=3)])
def one_pdf(ctx, n, m):
    mc = ctx.mod('utils.monte_carlo')
    p = ctx.pdf('p', n)
    r = mc.monte_carlo_from_1d_pdf(ctx.np.array(p), n_samples=m)
    ctx.check(ctx.shape(r) == (m,), 'shape')
    c = cum(ctx, p)
    for k in range(m):
        interval(ctx, c, r[k], ctx.draw(k), 'pdf')
    ctx.cover(r[0] == n - 1, 'last outcome drawn')
    ctx.observe('r', r)


@harness(H, 'one_cdf', B, quick=[dict(n=3, m=2)], thorough=[dict(n=5, m=4)])
def one_cdf(ctx, n, m):
    mc = ctx.mod('utils.monte_carlo')
    c = cum(ctx, ctx.pdf('p', n))
    before = ctx.np.array(c)
    arr = ctx.np.array(c)
    r = mc.monte_carlo_from_1d_cdf(arr, n_samples=m)
    ctx.check(ctx.eq(arr, before), 'input unchanged')
    for k in range(m):
        interval(ctx, c, r[k], ctx.draw(k), 'cdf')
    ctx.observe('r', r)


@harness(H, 'many_pdf', B, quick=[dict(n=3, m=2)], thorough=[dict(n=4, m=4)])
def many_pdf(ctx, n, m):
    mc = ctx.mod('utils.monte_carlo')
    ps = [ctx.pdf('p%d' % k, n) for k in range(m)]
    r = mc.monte_carlo_from_pdf(ctx.np.array(ps))
    ctx.check(ctx.shape(r) == (m,), 'shape')
    for k in range(m):
        interval(ctx, cum(ctx, ps[k]), r[k], ctx.draw(k), 'row of pdf')
    ctx.observe('r', r)


@harness(H, 'many_cdf', B, quick=[dict(n=3, m=2)], thorough=[dict(n=4, m=4)])
def many_cdf(ctx, n, m):
    mc = ctx.mod('utils.monte_carlo')
    cs = [cum(ctx, ctx.pdf('p%d' % k, n)) for k in range(m)]
    arr = ctx.np.array(cs)
    r = mc.monte_carlo_from_cdf(arr)
    ctx.check(ctx.eq(arr, ctx.np.array(cs)), 'input unchanged')
    for k in range(m):
        interval(ctx, cs[k], r[k], ctx.draw(k), 'row of cdf')
    ctx.observe('r', r)


@harness(H, 'short_of_one', B + ', totals in [1-1e-9, 1]', quick=[dict(n=3, f='monte_carlo_from_1d_pdf'),
                                                                dict(n=3, f='monte_carlo_from_pdf'),
                                                                dict(n=3, f='monte_carlo_from_1d_cdf'),
                                                                dict(n=3, f='monte_carlo_from_cdf')])
def short_of_one(ctx, n, f):
    mc = ctx.mod('utils.monte_carlo')
    p = short(ctx, 'p', n)
    a = cum(ctx, p) if f.endswith('cdf') else p
    r = getattr(mc, f)(ctx.np.array(a if '1d' in f else [a, a]))
    interval(ctx, cum(ctx, p), r[0], ctx.draw(0), 'short')
    ctx.cover(ctx.draw(0) >= cum(ctx, p)[-1], 'draw beyond the last value')
    ctx.observe('r', r)
