"""Distribution checks and rescaling accept, reject and normalise correctly."""
from symx.run import harness

H = []
SLACK = 1e-9   # which side of a tolerance its exact boundary falls on is rounding
NOT_COVERED = ['arrays with more entries than the configured shapes; nan entries']
SHAPES = [dict(shape=(3,)), dict(shape=(2, 2)), dict(shape=(1,)), dict(shape=(2, 1, 2))]
MORE = [dict(shape=(2, 4)), dict(shape=(5,))]


def rows(ctx, a, shape):
    n = shape[-1]
    e = ctx.els(a)
    return [e[i:i + n] for i in range(0, len(e), n)]


@harness(H, 'valid_cdf', 'every real array in [-2,3] of the configured shape', quick=SHAPES, thorough=MORE)
def valid_cdf(ctx, shape):
    m = ctx.mod('utils.distribution_functions')
    a = ctx.reals('c', shape, -2, 3)
    keep = ctx.np.array(a)
    err, r = ctx.raises(lambda: m.check_valid_cdf(a), ValueError)
    eps = 1e-6
    strict, loose = [], []
    for row in rows(ctx, keep, shape):
        inc = ctx.And(*[x <= y for x, y in zip(row[:-1], row[1:])])
        rng = ctx.And(*[x >= 0 for x in row])
        strict.append(ctx.And(inc, rng, row[-1] > 1 - eps + SLACK, row[-1] < 1 + eps - SLACK))
        loose.append(ctx.And(inc, rng, row[-1] >= 1 - eps - SLACK, row[-1] <= 1 + eps + SLACK))
    if err:
        ctx.check(ctx.Not(ctx.And(*strict)), 'a valid cdf is refused')
    else:
        ctx.check(ctx.And(*loose), 'an invalid cdf is accepted')
        ctx.check(bool(r), 'returns True')
        ctx.cover(True, 'accepted')
    ctx.check(ctx.eq(a, keep), 'input unchanged')
    ctx.observe('err', err)


@harness(H, 'tolerance', 'tolerances of 1e-4 and 0.5; every array of two entries in [-1,3]',
         quick=[dict(eps=1e-4), dict(eps=0.5)])
def tolerance(ctx, eps):
    m = ctx.mod('utils.distribution_functions')
    a = ctx.reals('c', (2,), -1, 3)
    err, r = ctx.raises(lambda: m.check_valid_cdf(a, epsilon=eps), ValueError)
    x, y = ctx.els(a)
    if err:
        ctx.check(ctx.Not(ctx.And(x >= 0, x <= y, y > 1 - eps + SLACK, y < 1 + eps - SLACK)), 'valid within tolerance refused')
    else:
        ctx.check(ctx.And(x >= 0, x <= y, y >= 1 - eps - SLACK, y <= 1 + eps + SLACK), 'invalid accepted')
    ctx.observe('err', err)


def _rescale(ctx, shape, which, eps):
    m = ctx.mod('utils.distribution_functions')
    a = ctx.reals('p', shape, 0, 2)
    keep = ctx.np.array(a)
    kw = {} if eps is None else {'epsilon': eps}
    tol = 0.1 if eps is None else eps
    err, r = ctx.raises(lambda: getattr(m, which)(a, **kw), ValueError)
    tots = [ctx.sum(row) if which == 'rescale_pdf' else row[-1] for row in rows(ctx, keep, shape)]
    ok_strict = ctx.And(*[ctx.And(t > 1 - tol + SLACK, t < 1 + tol - SLACK) for t in tots])
    ok_loose = ctx.And(*[ctx.And(t >= 1 - tol - SLACK, t <= 1 + tol + SLACK) for t in tots])
    ctx.check(ctx.eq(a, keep), 'input unchanged')
    if err:
        ctx.check(ctx.Not(ok_strict), 'a total within the tolerance is refused')
        ctx.observe('err', True)
        return
    ctx.check(ok_loose, 'a total off by more than the tolerance is accepted')
    ctx.check(ctx.shape(r) == shape, 'same shape')
    for row, out, t in zip(rows(ctx, keep, shape), rows(ctx, r, shape), tots):
        for x, y in zip(row, out):
            ctx.check(ctx.close(y * t, x), 'proportions kept')
        ctx.check(ctx.close(ctx.sum(out) if which == 'rescale_pdf' else out[-1], 1.0), 'total is one')
    ctx.observe('r', r)


@harness(H, 'rescale_pdf', 'every non-negative real array up to 2 of the configured shape; default tolerance',
         quick=[dict(shape=(3,)), dict(shape=(2, 2)), dict(shape=(2, 1, 2)), dict(shape=(1,))],
         thorough=[dict(shape=(4,)), dict(shape=(3, 3))])
def rescale_pdf(ctx, shape):
    _rescale(ctx, shape, 'rescale_pdf', None)


@harness(H, 'rescale_cdf', 'as above, cumulative', quick=[dict(shape=(3,)), dict(shape=(2, 2)), dict(shape=(2, 1, 2))],
         thorough=[dict(shape=(4,)), dict(shape=(3, 3))])
def rescale_cdf(ctx, shape):
    _rescale(ctx, shape, 'rescale_cdf', None)


@harness(H, 'rescale_tolerance', 'tolerance 0.01 and 0.5', quick=[dict(eps=0.01), dict(eps=0.5)])
def rescale_tolerance(ctx, eps):
    which = ctx.choice('which', ['rescale_pdf', 'rescale_cdf'])
    _rescale(ctx, (2,), which, eps)
