"""Room thermostats following the occupants."""
from symx.run import harness

H = []
NOT_COVERED = ['how often the patterns and the comfort changes are drawn']
LABELS = ['Cool Conservers', 'Steady and Savvy', 'Hot and Cold Fluctuators', 'On-Demand Sizzlers', 'On-off Switchers',
          'Toasty Cruisers']
FIXED = ('Steady and Savvy', 'Toasty Cruisers')
EVENTS = ('leaving', 'returning', 'bed time', 'wake up')


def state(ctx, name, n):
    """Occupancy and active occupancy, at most the occupancy."""
    occ = ctx.ints(name + '_occ', n, 0, 3)
    act = ctx.ints(name + '_act', n, 0, 3)
    for i in range(n):
        ctx.assume(act[i] <= occ[i])
    return occ, act


def make(ctx, n, when, how, spread=False):
    hs = ctx.mod('simulators.heating_simulators')
    occ, act = state(ctx, 's0', n)
    kw = {} if how is None else {'pattern_attribution_method': how}
    return hs.VariableThermostatTemperatureSimulator(n, occ, act, when, **kw), occ, act


@harness(H, 'occupants', 'all occupancies, comfort changes and draws of n households of every pattern following the occupants, T '
         'steps', quick=[dict(n=1, T=3), dict(n=2, T=1)], thorough=[dict(n=2, T=2), dict(n=1, T=4)], budget=700)
def occupants(ctx, n, T):
    np = ctx.np
    label = ctx.choice('pattern', [s for s in LABELS if s not in FIXED])
    sim, occ, act = make(ctx, n, ctx.dt.datetime(2020, 1, 1, 4), label)
    k = LABELS.index(label)
    mean, dev, low = sim.patterns_mean_T[k], sim.max_deviation_T[k], sim.LOW_T
    temp = np.array(sim.get_thermostat_temperatures())
    ctx.check(ctx.And(*[t == mean for t in temp]), 'the usual temperature of the pattern at first')
    for s in range(1, T + 1):
        o, a = state(ctx, 's%d' % s, n)
        oc, ac = np.array(o), np.array(a)
        sim.step(o, a)
        ctx.check(ctx.And(ctx.eq(o, oc), ctx.eq(a, ac)), "caller's data unaltered")
        new = np.array(sim.get_thermostat_temperatures())
        for i in range(n):
            if label == 'On-off Switchers':
                ctx.check(ctx.And(ctx.Implies(o[i] > 0, new[i] == mean), ctx.Implies(o[i] == 0, new[i] == low)),
                          'heated when somebody is in')
                continue
            left, came = ctx.And(occ[i] > 0, o[i] == 0), ctx.And(occ[i] == 0, o[i] > 0)
            stay = ctx.And(ctx.Not(left), ctx.Not(came))
            bed, wake = ctx.And(stay, act[i] > 0, a[i] == 0), ctx.And(stay, act[i] == 0, a[i] > 0)
            comfort = ctx.And(a[i] > 0, new[i] >= mean, new[i] <= mean + dev)
            ctx.check(ctx.Implies(left, new[i] == low), 'low temperature when everybody left')
            ctx.check(ctx.Implies(came, ctx.Or(new[i] == mean + dev, comfort)), 'high temperature on arrival')
            ctx.check(ctx.Implies(bed, new[i] == mean), 'usual temperature at bedtime')
            ctx.check(ctx.Implies(wake, ctx.Or(new[i] == mean + dev, comfort)), 'high temperature on waking up')
            ctx.check(ctx.Implies(ctx.And(stay, ctx.Not(bed), ctx.Not(wake)), ctx.Or(new[i] == temp[i], comfort)),
                      'otherwise unchanged or adjusted by somebody active')
        occ, act, temp = oc, ac, new


@harness(H, 'programs', 'all times of a day at multiples of ten minutes, programs and draws of n households with a fixed program, T steps',
         quick=[dict(n=1, T=2), dict(n=2, T=1)], thorough=[dict(n=2, T=2), dict(n=1, T=4)], budget=700)
def programs(ctx, n, T):
    np = ctx.np
    label = ctx.choice('pattern', FIXED)
    when = ctx.dt.datetime(2020, 3, 14, ctx.int('hour', 0, 23), 10 * ctx.int('tens', 0, 5))
    sim, occ, act = make(ctx, n, when, label)
    k = LABELS.index(label)
    mean, dev = sim.patterns_mean_T[k], sim.max_deviation_T[k]
    p = sim.fixed_pattern_dict
    temp = np.array(sim.get_thermostat_temperatures())
    ctx.check(ctx.And(*[t == mean for t in temp]), 'the usual temperature of the pattern at first')
    keys = {'leaving': 'leaving', 'returning': 'returning', 'bed time': 'bed time', 'wake up': 'wake up'}
    for i in range(n):
        for e in EVENTS:
            h, m = p[e + ' hour'][i], p[e + ' minutes'][i]
            ctx.check(ctx.And(h >= 0, h < 24, m >= 0, m < 60, m % 10 == 0), 'a time of the day at a multiple of ten minutes')
        day = {e: p[e + ' hour'][i] * 60 + p[e + ' minutes'][i] for e in EVENTS}
        ctx.check(ctx.And(day['wake up'] >= 360, day['wake up'] < 600), 'waking up in the morning')
        ctx.check(ctx.And(day['leaving'] >= day['wake up'] + 30, day['returning'] >= day['leaving'] + 240), 'back after leaving after waking up')
    for s in range(1, T + 1):
        o, a = state(ctx, 's%d' % s, n)
        sim.step(o, a)
        t = when + ctx.dt.timedelta(minutes=10 * s)
        new = np.array(sim.get_thermostat_temperatures())
        for i in range(n):
            at = {e: ctx.And(p[e + ' hour'][i] == t.hour, p[e + ' minutes'][i] == t.minute) for e in EVENTS}
            gone = ctx.And(at['leaving'], p['change during day'][i])
            ctx.check(ctx.Implies(at['wake up'], new[i] == mean + dev), 'high temperature on waking up')
            others = ctx.And(ctx.Not(at['wake up']))
            ctx.check(ctx.Implies(ctx.And(others, at['bed time']), new[i] == mean), 'usual temperature at bedtime')
            others = ctx.And(others, ctx.Not(at['bed time']))
            ctx.check(ctx.Implies(ctx.And(others, at['returning']), new[i] == mean + dev), 'high temperature on return')
            others = ctx.And(others, ctx.Not(at['returning']))
            ctx.check(ctx.Implies(ctx.And(others, gone), new[i] == mean - dev), 'low temperature when leaving')
            ctx.check(ctx.Implies(ctx.And(others, ctx.Not(gone)), new[i] == temp[i]), 'otherwise unchanged')
        temp = new


@harness(H, 'patterns', 'all draws of patterns and occupancies of n households, default, random and given attribution; one step',
         quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], budget=700)
def patterns(ctx, n):
    np = ctx.np
    how = ctx.choice('how', [None, 'random', 'living lab'] + LABELS)
    sim, occ, act = make(ctx, n, ctx.dt.datetime(2020, 1, 1, 3), how)
    kinds = list(sim.pattern_type)
    for i in range(n):
        ctx.check(ctx.And(kinds[i] >= 0, kinds[i] < len(LABELS)), 'a known pattern')
        if how in LABELS:
            ctx.check(kinds[i] == LABELS.index(how), 'the given pattern')
    o, a = state(ctx, 's1', n)
    sim.step(o, a)
    new = sim.get_thermostat_temperatures()
    for i in range(n):
        k = LABELS.index('On-off Switchers')
        ctx.check(ctx.Implies(kinds[i] == k, new[i] == ctx.ite(o[i] > 0, 20, 16)), 'every household follows its own pattern')
        for f in FIXED:
            k = LABELS.index(f)
            ctx.check(ctx.Implies(kinds[i] == k, new[i] == sim.patterns_mean_T[k]), 'programs do not follow the occupants')
        for f in ('Cool Conservers', 'Hot and Cold Fluctuators', 'On-Demand Sizzlers'):
            k = LABELS.index(f)
            ctx.check(ctx.Implies(ctx.And(kinds[i] == k, occ[i] > 0, o[i] == 0), new[i] == 16), 'low temperature when everybody left')
    raised, _ = ctx.raises(lambda: type(sim)(n, occ, act, ctx.dt.datetime(2020, 1, 1), pattern_attribution_method='unknown'),
                           ValueError)
    ctx.check(raised, 'unknown attribution refused')


@harness(H, 'logger', 'the documented logger parameter', quick=[dict()])
def logger(ctx):
    hs = ctx.mod('simulators.heating_simulators')
    base = ctx.mod('simulators.base_simulators')
    occ, act = state(ctx, 's0', 1)
    log = base.SimLogger('get_thermostat_temperatures', aggregated=False)
    sim = hs.VariableThermostatTemperatureSimulator(1, occ, act, ctx.dt.datetime(2020, 1, 1, 3), logger=log)
    first = sim.get_thermostat_temperatures()
    o, a = state(ctx, 's1', 1)
    sim.step(o, a)
    ctx.check(ctx.eq(sim.logger.get()[0], first), 'the temperatures are logged')
