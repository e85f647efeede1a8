"""Population allocation places every household exactly once."""
from symx.run import harness

H = []
NOT_COVERED = ['more classes or households than configured']
B = 'every probability vector of the configured length with total within 1e-7 of one; all draws'


def vector(ctx, n, exact=False):
    p = [ctx.real('p%d' % i, 0, 1.1) for i in range(n)]
    s = ctx.sum(p)
    ctx.assume(s == 1.0 if exact else ctx.And(s > 1 - 1e-7, s < 1 + 1e-7))
    return p


CFG = [dict(n=n, k=k) for n, k in ((1, 1), (5, 1), (1, 3), (2, 3), (4, 3), (3, 4), (60, 2))]


@harness(H, 'proportional', B, quick=CFG, thorough=[dict(n=7, k=4), dict(n=10, k=5), dict(n=25, k=3)])
def proportional(ctx, n, k):
    u = ctx.mod('simulators.util')
    p = vector(ctx, k)
    arr = ctx.np.array(p)
    keep = ctx.np.array(arr)
    c = u.sample_population(n, arr, 'real_population')
    ctx.check(ctx.shape(c) == (k,), 'one count per class')
    ctx.check(ctx.eq(arr, keep), 'input unchanged')
    els = ctx.els(c)
    ctx.check(ctx.sum(els) == n, 'counts add up')
    for q, m in zip(p, els):
        ctx.check(m >= 0, 'non-negative')
        ctx.check(ctx.Implies(q == 0, m == 0), 'class of probability zero')
        ctx.check(ctx.And(m - q * n < 2, m - q * n > -2), 'share')
    ctx.observe('c', c)


@harness(H, 'monte_carlo', B, quick=[dict(n=1, k=2), dict(n=2, k=3), dict(n=3, k=2)],
         thorough=[dict(n=4, k=3), dict(n=3, k=4)])
def monte_carlo(ctx, n, k):
    u = ctx.mod('simulators.util')
    p = vector(ctx, k)
    c = u.sample_population(n, ctx.np.array(p), 'monte_carlo')
    ctx.check(ctx.shape(c) == (k,), 'one count per class')
    els = ctx.els(c)
    ctx.check(ctx.sum(els) == n, 'counts add up')
    for q, m in zip(p, els):
        ctx.check(m >= 0, 'non-negative')
        ctx.check(ctx.Implies(q == 0, m == 0), 'class of probability zero')
    ctx.observe('c', c)


@harness(H, 'refusals', 'probability vectors of 3 classes with any total', quick=[dict()])
def refusals(ctx):
    u = ctx.mod('simulators.util')
    p = ctx.reals('p', 3, 0, 1)
    s = ctx.sum(ctx.els(p))
    err, _ = ctx.raises(lambda: u.sample_population(2, p), ValueError)
    if err:
        ctx.check(ctx.Or(s < 1 - 1e-7, s > 1 + 1e-7), 'a valid vector is refused')
    else:
        ctx.check(ctx.And(s > 1 - 1e-5, s < 1 + 1e-5), 'a vector not summing to one is accepted')
    algo = ctx.choice('algo', ['nope', 'Real_population', ''])
    q = ctx.np.array([0.25, 0.75])
    err, _ = ctx.raises(lambda: u.sample_population(2, q, algo), NotImplementedError)
    ctx.check(err, 'unknown algorithm is refused')
