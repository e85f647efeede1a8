"""Lighting follows daylight and active occupants."""
from symx.run import harness
from harness.c14 import rows, draws_decide
from harness.c09 import lookup

H = []
NOT_COVERED = ['the lighting data files: the data set is a stand-in with unknown bulbs, thresholds and durations', 'more households, bulbs or steps than configured',
               'the distribution of the relative use of bulbs (a logarithm of a draw): any positive value is considered']
ASSUMPTIONS = ['powers, relative uses, the calibration and the effective occupancy are not negative; bulbs not installed have no power or NaN']


@harness(H, 'fisher', 'n households, all occupancies, irradiances, thresholds and uses', quick=[dict(n=3)])
def fisher(ctx, n):
    np = ctx.np
    L = ctx.mod('simulators.lighting_simulators')
    lo, hi, use = ctx.real('min', 0, 1000), ctx.real('max', 0, 1000), ctx.real('use', 0, 1000)
    ctx.assume(lo < hi)

    class Data:
        def load_fisher_lighting(self):
            return {'irradiation_threshold_min': lo, 'irradiation_threshold_max': hi, 'individual_light_use': use}
    occ = [ctx.ints('occ%d' % t, n, 0, 6) for t in range(2)]
    irr = [ctx.real('irr%d' % t, 0, 2000) for t in range(2)]
    sim = L.FisherLightingSimulator(n, Data(), np.array(occ[0]), irr[0])
    out = []
    for t in range(2):
        if t:
            sim.step(np.array(occ[1]), irr[1])
        p = sim.get_power_consumption()
        ctx.check(ctx.shape(p) == (n,), 'one value per household')
        out.append(ctx.els(p))
        for v, o in zip(out[t], ctx.els(occ[t])):
            ctx.check(ctx.And(v >= 0, v <= o * use), 'between zero and the use of the active occupants')
            ctx.check(ctx.Implies(ctx.Or(irr[t] >= hi, o == 0), v == 0), 'none in daylight or without active occupants')
            ctx.check(ctx.Implies(irr[t] <= lo, v == o * use), 'full in the dark')
            ctx.check(ctx.Implies(ctx.And(irr[t] > lo, irr[t] < hi), ctx.close(v * (hi - lo), o * use * (hi - irr[t]))), 'in proportion to the missing light')
    for a, b, x, y in zip(out[0], out[1], ctx.els(occ[0]), ctx.els(occ[1])):
        ctx.check(ctx.Implies(ctx.And(x == y, irr[0] <= irr[1]), a >= b), 'less with more light')
    d = L.FisherLightingSimulator(n, Data())
    ctx.check(ctx.shape(d.get_power_consumption()) == (n,), 'one value per household by default')
    ctx.check(ctx.And(*[x == use for x in ctx.els(d.get_power_consumption())]), 'one active occupant in the dark by default')


def crest(ctx, n, powers, cal=None, eff=None, cdf=None, low=(1., 3.), high=(3., 6.), **kw):
    np = ctx.np
    L = ctx.mod('simulators.lighting_simulators')

    class Data:
        def load_crest_lighting(self):
            return {'calibration_scalar': 1. if cal is None else cal, 'effective_occupancy': np.array(eff or [0., 1., 1.5, 2.]),
                    'durations_cdf': np.array(cdf or [.5, 1.]), 'durations_minutes_low': np.array(low), 'durations_minutes_high': np.array(high),
                    'irradiance_threshold_mean': 60., 'irradiance_threshold_std': 10.}

        def load_bulbs_config(self):
            return np.array(powers)
    with ctx.patched(L.CrestLightingSimulator, _generate_relative_use=lambda self: np.ones(self.bulbs_power.shape)):
        return L.CrestLightingSimulator(n, Data(), **kw)


@harness(H, 'bulbs', 'one step of n households with b bulbs each from any times left; all powers, uses, thresholds, irradiances, occupancies, durations and draws',
         quick=[dict(n=1, b=2), dict(n=2, b=1)], thorough=[dict(n=1, b=3)])
def bulbs(ctx, n, b):
    np = ctx.np
    powers = ctx.reals('power', (n, b), 0, 200)
    cal, eff = ctx.real('calibration', 0, 2), ctx.reals('effective', 3, 0, 3)
    low = ctx.reals('low', 2, 0, 20)
    width = ctx.reals('width', 2, 0, 20)
    lows, highs = ctx.els(low), [a + c for a, c in zip(ctx.els(low), ctx.els(width))]
    first = ctx.real('cdf', 0, 1)
    sim = crest(ctx, n, powers, cal, ctx.els(eff), [first, 1.], lows, highs)
    p = rows(ctx, powers)
    use, thr = ctx.reals('use', (n, b), 0, 5), ctx.reals('threshold', n, -50, 200)
    left = ctx.ints('left', (n, b), 0, 9)
    sim.bulbs_power, sim.relative_use, sim.irradiance_threshold, sim.bulbs_times_left = np.array(powers), np.array(use), np.array(thr), np.array(left)
    occ, irr = ctx.ints('occ', n, 0, 2), ctx.real('irr', 0, 300)
    l0, u, o, th = rows(ctx, left), rows(ctx, use), ctx.els(occ), ctx.els(thr)
    k = ctx.n_draws()
    sim.step(np.array(occ), irr)
    l1 = rows(ctx, sim.bulbs_times_left)
    ds = [ctx.draw(i) for i in range(k, ctx.n_draws())]
    tot = ctx.els(sim.get_power_demand())
    for i in range(n):
        dark = irr < th[i]
        e = lookup(ctx, ctx.els(eff), o[i])
        for j in range(b):
            on, was = l1[i][j] > 0, l0[i][j] > 1
            prob = e * u[i][j] * cal
            ctx.check(ctx.Implies(o[i] == 0, ctx.Not(on)), 'off without active occupants')
            ctx.check(ctx.Implies(ctx.And(was, o[i] > 0), l1[i][j] == l0[i][j] - 1), 'a bulb stays on for its remaining time')
            ctx.check(ctx.Implies(ctx.And(on, ctx.Not(was)), ctx.And(ctx.Or(dark, *[d < .05 for d in ds]), prob > 0, ctx.Or(*[d < prob for d in ds]))), 'switched on only when it is dark and with its probability')
            top = ctx.ite(highs[0] > highs[1], highs[0], highs[1])
            bot = ctx.ite(lows[0] < lows[1], lows[0], lows[1])
            ctx.check(ctx.Implies(ctx.And(on, ctx.Not(was)), ctx.And(l1[i][j] <= top, l1[i][j] > bot - 1)), 'for a duration of the data')
            always = ctx.And(*[d < prob for d in ds])
            ctx.check(ctx.Implies(ctx.And(ctx.Not(was), dark, always, o[i] > 0, bot >= 1), on), 'switched on when it is dark')
        ctx.check(ctx.close(tot[i], ctx.sum([ctx.ite(l1[i][j] > 0, p[i][j], 0) for j in range(b)])), 'power of the bulbs that are on')
        ctx.check(ctx.And(tot[i] >= 0, tot[i] <= ctx.sum(p[i])), 'between zero and what is installed')
    for g in (sim.get_electric_consumptions(), sim.get_thermal_gains()):
        ctx.check(ctx.eq(g, sim.get_power_demand()), 'all of it becomes heat')


@harness(H, 'series', 'one household with a bulb and a gap among its bulbs; all occupancies, irradiances and draws of T steps', quick=[dict(T=3)], thorough=[dict(T=4)])
def series(ctx, T):
    """A bulb that is switched on stays on for its duration, unless everybody leaves; the log shows it."""
    np = ctx.np
    B = ctx.mod('simulators.base_simulators')
    d = ctx.int('duration', 1, 3)
    sim = crest(ctx, 1, [[60., float('nan')]] if ctx.choice('gap', [True, False]) else [[60., 0.]], low=[d, d], high=[d, d],
                logger=B.SimLogger('get_power_demand', aggregated=False))
    ctx.check(ctx.eq(sim.get_power_demand(), np.array([0.])), 'all off initially')
    sim.irradiance_threshold = np.array([100.])
    on, stop = [False], [False]
    for t in range(T):
        occ = ctx.ints('occ%d' % t, 1, 0, 1)
        sim.relative_use = np.array([[ctx.real('use%d' % t, 0, 2), 0.]])
        sim.step(np.array(occ), 0.)
        v = ctx.els(sim.get_power_demand())[0]
        ctx.check(ctx.Or(v == 0, v == 60), 'the bulb')
        on.append(v == 60)
        stop.append(ctx.els(occ)[0] == 0)
    log = ctx.els(sim.logger.get('get_power_demand'))
    ctx.check(len(log) == T and ctx.And(*[ctx.Iff(a == 60, b) for a, b in zip(log, on)]), 'the log shows every step')
    for t in range(1, T + 1):
        ctx.check(ctx.Implies(stop[t], ctx.Not(on[t])), 'off without active occupants')
        start = ctx.And(on[t], ctx.Not(on[t - 1]))
        for k in range(T - t + 1):
            never = ctx.And(*[ctx.Not(s) for s in stop[t:t + k + 1]])
            ctx.check(ctx.Implies(ctx.And(start, never, k < d), on[t + k]), 'on for its duration')


@harness(H, 'installed', 'three bulb configurations, n households and all draws; all numbers of bulbs drawn up to 4', quick=[dict(n=2)])
def installed(ctx, n):
    """Households get one of the configurations, or at least one bulb each."""
    np = ctx.np
    L = ctx.mod('simulators.lighting_simulators')
    conf = ctx.reals('power', (3, 2), 0, 200)
    sim = crest(ctx, n, conf)
    c = rows(ctx, conf)
    for r in rows(ctx, sim.bulbs_power):
        ctx.check(ctx.Or(*[ctx.And(*[x == y for x, y in zip(r, q)]) for q in c]), 'one of the configurations')
    mean, std = ctx.real('mean', 0, 3), ctx.real('std', 0, 1)
    kinds = ctx.reals('kind', 2, 1, 100)
    pen = ctx.pdf('penetration', 2)
    sim.data.load_installed_bulbs_stats = lambda: (mean, std)
    sim.data.load_bulbs = lambda: (np.array(kinds), np.array(pen))
    z = []

    def randn(*a):
        z.extend(ctx.els(ctx.reals('z', a, -3, 3)))
        return np.array(z).reshape(a)
    old = L.np.random.randn
    try:
        L.np.random.randn = randn
        got = rows(ctx, sim.sample_bulbs_configuration('randn'))
    finally:
        L.np.random.randn = old
    kk = ctx.els(kinds)
    for i, r in enumerate(got):
        want = mean + std * z[i]
        num = ctx.sum([ctx.ite(x > 0, 1, 0) for x in r])
        ctx.check(ctx.And(*[ctx.Or(x == 0, x == kk[0], x == kk[1]) for x in r]), 'bulbs of the data')
        ctx.check(ctx.And(num >= 1, ctx.Implies(want >= 1, ctx.And(num <= want, num > want - 1))), 'number of bulbs')
