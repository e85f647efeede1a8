"""Appliance power and water add up from what is switched on."""
from symx.run import harness
from harness.c14 import data_of, rows, probabilistic_sim

H = []
NOT_COVERED = ['the appliance data files: the data set is a stand-in with unknown ratings and profiles', 'water appliances with a load profile',
               'more households, appliances or steps than configured']
ASSUMPTIONS = ['ratings, stand-by powers and load profiles are not negative']
KG_S = 1 / 60.       # kg/s of one litre per minute
CP = 4200.


def sims(ctx, kind, n, specs, **kw):
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    start = dict(start_datetime=ctx.dt.datetime(2014, 1, 1))
    if kind == 'occupancy':
        data = data_of(ctx, specs, lambda g: {s['act']: [[0., 0.]] * 144 for s in specs}, **kw)
        return A.OccupancyApplianceSimulator([{}], [n], data, equipped_sampling_algo='all', **start)
    if kind == 'activity':
        return A.ActivityApplianceSimulator(n, {'x': np.array([0] * n)}, data=data_of(ctx, [dict(s, inact=True) for s in specs], **kw), **start)
    return probabilistic_sim(ctx, n, specs, {'x': [0] * n})


@harness(H, 'power', 'n households with three appliances, any ownership, times left, ratings and stand-by powers, for each kind of simulator',
         quick=[dict(n=2, kind=k) for k in ('occupancy', 'activity', 'probabilistic')], thorough=[dict(n=3, kind=k) for k in ('occupancy', 'activity', 'probabilistic')])
def power(ctx, n, kind):
    np = ctx.np
    sb, pw, wt = (ctx.reals(k, 3, 0, 5000) for k in ('standby', 'power', 'water'))
    s, p, w = ctx.els(sb), ctx.els(pw), ctx.els(wt)
    flow = [w[0], 0., w[2]]
    sim = sims(ctx, kind, n, [dict(type='a%d' % j, act='x', standby=s[j], power=p[j], water=flow[j], lam=1.) for j in range(3)])
    own, left = ctx.bools('own', (n, 3)), ctx.reals('left', (n, 3), -1, 9)
    o, l = rows(ctx, own), rows(ctx, left)
    for a, b in zip(o, l):
        for x, y in zip(a, b):
            ctx.assume(ctx.Implies(y > 0, x))
    sim.available_appliances = np.array(own)
    sim.n_steps_left = np.array(left)
    if kind == 'activity':
        sim._is_used = np.array(left) > 0
    sim._cache.clear()
    got, water = rows(ctx, sim.get_current_power_consumptions()), rows(ctx, sim.get_current_water_consumptions())
    used = rows(ctx, sim.get_current_usage())
    tot, gain, en, heat = (ctx.els(x) for x in (sim.get_power_demand(), sim.get_thermal_gains(), sim.get_energy_consumption(), sim.get_dhw_heating_demand()))
    for x in (tot, gain, en, heat):
        ctx.check(len(x) == n, 'one value per household')
    for i in range(n):
        for j in range(3):
            on = l[i][j] > 0
            ctx.check(ctx.Iff(used[i][j], on), 'used')
            ctx.check(got[i][j] == ctx.ite(on, p[j], ctx.ite(o[i][j], s[j], 0)), 'power of an appliance')
            part = ctx.ite(l[i][j] < 1, l[i][j], 1) if kind == 'occupancy' else 1
            ctx.check(water[i][j] == ctx.ite(on, part * flow[j], 0), 'water of an appliance')
        ctx.check(ctx.close(tot[i], ctx.sum(got[i])), 'power of a household')
        ctx.check(tot[i] >= 0, 'power is not negative')
        ctx.check(ctx.And(gain[i] == tot[i], en[i] == tot[i]), 'all of it becomes heat')
        ctx.check(ctx.close(heat[i], ctx.sum(water[i]) * KG_S * CP), 'heat capacity of the hot water')
    ctx.check(ctx.close(ctx.sum(sim.get_power_demand()), ctx.sum([ctx.sum(r) for r in got])), 'total')


@harness(H, 'profile', 'appliance with one of two load profiles of lengths a and b and an appliance without; all profiles and draws of T steps',
         quick=[dict(a=2, b=3, T=4)], thorough=[dict(a=3, b=4, T=6)])
def profile(ctx, a, b, T):
    """A started appliance follows its load profile from the beginning to the end, then stops."""
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    loads = [ctx.reals('l%d' % i, k, 0, 3000) for i, k in ((0, a), (1, b))]
    l = [ctx.els(x) for x in loads]
    sb, pw = ctx.reals('standby', 2, 0, 10), ctx.reals('power', 2, 0, 2000)
    s, p = ctx.els(sb), ctx.els(pw)
    data = data_of(ctx, [dict(type='t', act='x', standby=s[0], power=p[0], dur=7.), dict(type='u', act='x', standby=s[1], power=p[1], crest=0.)], lambda g: {'x': [[.5, .5]] * 144},
                   loads={'t': {'first': np.array(loads[0]), 'second': np.array(loads[1])}})
    sim = A.OccupancyApplianceSimulator([{}], [1], data, equipped_sampling_algo='all', real_profiles_algo='only_switched_on', start_datetime=ctx.dt.datetime(2014, 1, 1))
    which = ctx.draw(0)                           # the draw of the profile
    seq, on = [], []
    for t in range(T + 1):
        if t:
            sim.appliances['switch_on_prob_crest'] = np.array([1. if t == 1 else 0., 0.])
            sim.step(np.array([1]))
            # certain start in the first step
            if t == 1:
                sim_started = True
        pc = rows(ctx, sim.get_current_power_consumptions())[0]
        ctx.check(pc[1] == s[1], 'stand-by')
        seq.append(pc[0])
        on.append(rows(ctx, sim.get_current_usage())[0][0])
    ctx.check(ctx.And(ctx.Not(on[0]), seq[0] == s[0]), 'off initially')
    if not on[1]:
        return
    ctx.cover(True, 'started')
    first = ctx.And(*[seq[t] == (l[0][t - 1] if t <= a else s[0]) for t in range(1, T + 1)])
    second = ctx.And(*[seq[t] == (l[1][t - 1] if t <= b else s[0]) for t in range(1, T + 1)])
    ctx.check(ctx.Or(first, second), 'one of the profiles from its beginning to its end')
    del which


@harness(H, 'activity_profile', 'appliance with one of two load profiles of lengths a and b, one with a rated power and one always on with a profile of length a; '
         'all activities, profiles and draws of T steps', quick=[dict(a=2, b=3, T=3), dict(a=1, b=3, T=3)], thorough=[dict(a=2, b=3, T=5), dict(a=3, b=4, T=5)])
def activity_profile(ctx, a, b, T):
    """Load profiles are repeated while the activity lasts."""
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    loads = [ctx.reals('l%d' % i, k, 0, 3000) for i, k in ((0, a), (1, b), (2, a))]
    l = [ctx.els(x) for x in loads]
    sb, pw = ctx.reals('standby', 3, 0, 10), ctx.reals('power', 3, 0, 2000)
    s, p = ctx.els(sb), ctx.els(pw)
    specs = [dict(type=k, act=x, standby=s[j], power=p[j], inact=True) for j, (k, x) in enumerate((('t', 'x'), ('u', 'x'), ('f', 'level')))]
    data = data_of(ctx, specs, loads={'t': {'first': np.array(loads[0]), 'second': np.array(loads[1])}}, full={'f': {'only': np.array(loads[2])}})
    sim = A.ActivityApplianceSimulator(1, {'x': np.array([0])}, data=data, equipped_sampling_algo='all', real_profiles_algo='uniform', start_datetime=ctx.dt.datetime(2014, 1, 1))
    seq, run, fr = [], [], []
    for t in range(T + 1):
        if t:
            x = ctx.ints('x%d' % t, 1, 0, 1)
            sim.step({'x': np.array(x)})
            run.append(run[-1] + 1 if ctx.els(x)[0] > 0 else 0)
        else:
            run.append(0)
        pc = rows(ctx, sim.get_current_power_consumptions())[0]
        ctx.check(pc[1] == (p[1] if run[-1] else s[1]), 'rated power while the activity lasts')
        seq.append(pc[0])
        fr.append(pc[2])
    ctx.check(ctx.And(*[v == s[0] for v, r in zip(seq, run) if r == 0]), 'stand-by')
    ctx.check(ctx.Or(*[ctx.And(*[v == q[(r - 1) % len(q)] for v, r in zip(seq, run) if r > 0]) for q in l[:2]]), 'one of the profiles, repeated')
    ctx.check(ctx.Or(*[ctx.And(*[v == l[2][(t + k) % a] for t, v in enumerate(fr)]) for k in range(a)]), 'profile of an appliance that is always on')
    ctx.cover(run[-1] == T, 'repeated')


@harness(H, 'types', 'two households that own or not three appliances of two types with profiles of lengths 2 and 3; all profiles, draws and positions', quick=[dict()])
def types(ctx):
    """Every appliance reads the profile of its own type at its own position."""
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    lt, lu = ctx.reals('t', 2, 0, 3000), ctx.reals('u', 3, 0, 3000)
    t, u = ctx.els(lt), ctx.els(lu)
    data = data_of(ctx, [dict(type=k, act='x', power=1., standby=2.) for k in 'utu'], lambda g: {'x': [[.5, .5]] * 144}, loads={'t': {'a': np.array(lt)}, 'u': {'b': np.array(lu)}})
    sim = A.OccupancyApplianceSimulator([{}], [2], data, equipped_sampling_algo='basic', real_profiles_algo='only_switched_on', start_datetime=ctx.dt.datetime(2014, 1, 1))
    own = rows(ctx, sim.available_appliances)
    pos = [[ctx.int('left_%d_%d' % (i, j), 0, 2 if j == 1 else 3) for j in range(3)] for i in range(2)]
    left = [[p if own[i][j] else 0 for j, p in enumerate(r)] for i, r in enumerate(pos)]
    sim.n_steps_left = np.array(left) * 1.
    sim._cache.clear()
    got = rows(ctx, sim.get_current_power_consumptions())
    for i in range(2):
        for j, prof in enumerate((u, t, u)):
            k = len(prof)
            exp = 2. if own[i][j] else 0.
            for q in range(1, k + 1):
                exp = ctx.ite(left[i][j] == q, prof[k - q], exp)
            ctx.check(got[i][j] == exp, 'current point of its own profile')
