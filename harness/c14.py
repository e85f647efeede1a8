"""Appliances run for exactly their cycle and only when they may start."""
from symx.run import harness

H = []
NOT_COVERED = ['the appliance data files: the data set is a stand-in with unknown probabilities and durations',
               'appliances driven by an activity that do not stop with it (no length of use is documented for them)',
               'more households, appliances or steps than configured']
ASSUMPTIONS = ['durations are whole numbers of steps except for water, whose duration is volume / flow']
ZERO = dict(standby=0., power=1., water=0., lam=0., dur=1, inact=False, crest=1., delay=0, prob=False, prev_type='nan',
            prev_act='nan', target=1., own=1.)
KEYS = dict(equipped_prob='own', after_cycle_delay='delay', related_activity='act', standby_consumption='standby',
            mean_elec_consumption='power', poisson_sampling_lambda_liters='lam', mean_water_consumption='water',
            mean_duration='dur', inactive_switch_off='inact', switch_on_prob_crest='crest', probabilistic='prob',
            previous_appliance_type='prev_type', previous_activity='prev_act', target_switchons='target', type='type', name='name')


def dict_of(ctx, specs):
    np = ctx.np
    specs = [dict(ZERO, **s) for s in specs]
    out = {'number': len(specs)}
    for k, s in KEYS.items():
        vals = [dict(dict(name=x['type']), **x)[s] for x in specs]
        if s in ('dur', 'delay') and False:
            vals = [float(v) for v in vals]
        out[k] = np.array(vals)
    out['mean_duration'] = out['mean_duration'] * 1.
    out['uses_water'] = np.array([not (isinstance(x['water'], float) and x['water'] == 0) for x in specs])
    return out


def data_of(ctx, specs, profiles=None, loads=None, own=None, minutes=1, full=None, **tables):
    np = ctx.np

    class Data:
        step_size = ctx.dt.timedelta(minutes=minutes)
        refresh_time = ctx.dt.time(0, 0, 0)

        def load_appliance_dict(self):
            return dict_of(ctx, specs)

        def load_activity_probability_profiles(self, subgroup):
            return {a: np.array(p) for a, p in profiles(subgroup).items()}

        def load_real_profiles_dict(self, kind):
            return {'switchedON': loads or {}, 'full': full or {}}[kind]

        def load_appliance_ownership_dict(self, subgroup):
            return own(subgroup)

        def load_yearly_target_switchons(self, subgroup):
            return tables['target'](subgroup)

        def load_activity_probabilities(self, subgroup):
            return tables['prob'](subgroup)

        def load_daily_activity_starts(self, subgroup):
            return tables['starts'](subgroup)
    return Data()


def rows(ctx, a):
    n, k = ctx.shape(a)
    e = ctx.els(a)
    return [[e[i * k + j] for j in range(k)] for i in range(n)]


def run_length(ctx, on, owned, stop, dur, delay, label='', first=None, gap=1):
    """on[t]: shown after step t (t = 0: initially, off); stop[t]: the appliance has to be off at t."""
    T = len(on) - 1
    ctx.check(ctx.Implies(ctx.Or(*on), owned), 'only appliances of the household run' + label)
    for t in range(1, T + 1):
        ctx.check(ctx.Implies(stop[t], ctx.Not(on[t])), 'off at once when it has to be' + label)
    for t in range(1, T + 1):
        start = ctx.And(on[t], ctx.Not(on[t - 1])) if gap else on[t]
        for k in range(0, T - t + 1):
            never = ctx.And(*[ctx.Not(stop[t + i]) for i in range(k + 1)])
            ctx.check(ctx.Implies(ctx.And(start, k < dur, never), on[t + k]), 'on for the whole cycle' + label)
            if k:
                alive = ctx.And(*[ctx.Not(stop[t + i]) for i in range(k)])
                ctx.check(ctx.Implies(ctx.And(start, dur == k, alive), ctx.Not(on[t + k])), 'off after its cycle' + label)
                for j in range(1, delay):
                    if t + k + j <= T:
                        ctx.check(ctx.Implies(ctx.And(start, dur == k, alive), ctx.Not(on[t + k + j])), 'off for the delay after a cycle' + label)


def draws_decide(ctx, before, p):
    """All draws made since `before` say yes / no to an event of probability p."""
    ds = [ctx.draw(i) for i in range(before, ctx.n_draws())]
    return ctx.And(*[d < p for d in ds]), ctx.And(*[d >= p for d in ds])


@harness(H, 'occupancy', 'one appliance of any probabilities and duration of 1..T steps, delay of d steps, that stops or not '
         'without active occupants; all occupancies and draws of T steps', quick=[dict(T=3, d=0, inact=False), dict(T=3, d=0, inact=True), dict(T=3, d=2, inact=False), dict(T=3, d=2, inact=True)],
         thorough=[dict(T=5, d=2, inact=i) for i in (False, True)] + [dict(T=5, d=0, inact=i) for i in (False, True)])
def occupancy(ctx, T, d, inact):
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    pdf = [ctx.real('p%d' % i, 0, 1) for i in range(3)]
    c, own, dur = ctx.real('crest', 0, 1), ctx.real('own', 0, 1), ctx.int('dur', 1, T)
    data = data_of(ctx, [dict(type='a', act='x', crest=c, own=own, dur=dur, delay=d, inact=inact)], lambda g: {'x': [pdf] * 144})
    sim = A.OccupancyApplianceSimulator([{}], [1], data, start_datetime=ctx.dt.datetime(2014, 1, 1), equipped_sampling_algo='basic')
    owned = rows(ctx, sim.available_appliances)[0][0]
    on = [rows(ctx, sim.get_current_usage())[0][0]]
    ctx.check(ctx.Not(on[0]), 'off initially')
    stop, go = [False], [False]
    for t in range(T):
        occ = ctx.ints('occ%d' % t, 1, 0, 2)
        o = ctx.els(occ)[0]
        n = ctx.n_draws()
        sim.step(np.array(occ))
        p = ctx.ite(o == 0, pdf[0], ctx.ite(o == 1, pdf[1], pdf[2])) * c
        yes, no = draws_decide(ctx, n, p)
        on.append(rows(ctx, sim.get_current_usage())[0][0])
        stop.append(ctx.And(o == 0, inact))
        ctx.check(ctx.Implies(ctx.And(ctx.Not(on[-2]), on[-1]), ctx.And(p > 0, ctx.Not(no))), 'starts only with the activity')
        if t == 0 and d == 0:
            ctx.check(ctx.Implies(ctx.And(owned, yes, ctx.Not(stop[-1])), on[-1]), 'starts with the activity')
    ctx.cover(ctx.And(on[1], dur == 1), 'short cycle')
    run_length(ctx, on, owned, stop, dur, d)


@harness(H, 'occupancy_step', 'one step of n households with m appliances from any times left', quick=[dict(n=2, m=2), dict(n=1, m=3)], thorough=[dict(n=3, m=1)])
def occupancy_step(ctx, n, m):
    """Every appliance of every household on its own."""
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    acts = ['x', 'y', 'x'][:m]
    crest = [ctx.real('crest%d' % j, 0, 1) for j in range(m)]
    delay, inact = [0, 3, 1][:m], [True, False, True][:m]
    dur = [ctx.int('dur%d' % j, 1, 9) for j in range(m)]
    pdf = {(g, a): [ctx.real('p_%d_%s_%d' % (g, a, i), 0, 1) for i in range(2)] for g in range(n) for a in 'xy'}
    data = data_of(ctx, [dict(type='a%d' % j, act=acts[j], crest=crest[j], delay=delay[j], inact=inact[j], dur=dur[j]) for j in range(m)],
                   lambda g: {a: [pdf[g['n_residents'], a]] * 144 for a in 'xy'})
    sim = A.OccupancyApplianceSimulator([{'n_residents': g} for g in range(n)], [1] * n, data, start_datetime=ctx.dt.datetime(2014, 1, 1), equipped_sampling_algo='all')
    own = ctx.bools('own', (n, m))
    left, wait = ctx.ints('left', (n, m), 0, 9), ctx.ints('wait', (n, m), 0, 9)
    owned, l0, w0 = (rows(ctx, x) for x in (own, left, wait))
    for i in range(n):
        for j in range(m):
            ctx.assume(ctx.Implies(l0[i][j] > 0, ctx.And(owned[i][j], w0[i][j] >= l0[i][j])))
    sim.available_appliances = np.array(own)
    sim.n_steps_left, sim.n_steps_till_refresh = np.array(left) * 1., np.array(wait)
    occ = ctx.ints('occ', n, 0, 1)
    o = ctx.els(occ)
    k = ctx.n_draws()
    sim.step(np.array(occ))
    on, l1, w1 = rows(ctx, sim.get_current_usage()), rows(ctx, sim.n_steps_left), rows(ctx, sim.n_steps_till_refresh)
    for i in range(n):
        for j in range(m):
            p = ctx.ite(o[i] == 0, pdf[i, acts[j]][0], pdf[i, acts[j]][1]) * crest[j]
            yes, no = draws_decide(ctx, k, p)
            off = ctx.And(inact[j], o[i] == 0)
            may = ctx.And(owned[i][j], l0[i][j] == 0, w0[i][j] == 0)
            ctx.check(ctx.Implies(off, ctx.Not(on[i][j])), 'off at once when it has to be')
            ctx.check(ctx.Implies(ctx.And(l0[i][j] == 0, on[i][j]), ctx.And(may, ctx.Not(no), p > 0)), 'starts only when it may')
            ctx.check(ctx.Implies(ctx.And(may, yes, ctx.Not(off)), on[i][j]), 'starts when it may and is used')
            ctx.check(ctx.Implies(ctx.And(l0[i][j] > 0, ctx.Not(off)), ctx.And(ctx.Iff(on[i][j], l0[i][j] > 1), l1[i][j] == l0[i][j] - 1)), 'its time left decreases')
            ctx.check(ctx.Implies(ctx.And(l0[i][j] == 0, on[i][j]), ctx.And(l1[i][j] == dur[j], w1[i][j] == dur[j] + delay[j])), 'starts for its cycle')
            ctx.check(ctx.Implies(ctx.And(l0[i][j] == 0, ctx.Not(on[i][j]), ctx.Not(off)), w1[i][j] == ctx.ite(w0[i][j] > 0, w0[i][j] - 1, 0)), 'its delay decreases')
            ctx.check(ctx.Implies(off, w1[i][j] <= delay[j]), 'waits for its delay at most')


@harness(H, 'water', 'one water appliance with a flow of f litres per step; all volumes up to top and draws of T steps', quick=[dict(f=2., top=5, T=4)], thorough=[dict(f=3., top=9, T=5), dict(f=.5, top=2, T=5)])
def water(ctx, f, top, T):
    """The water of an event is its volume, and it lasts as long as that takes."""
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    data = data_of(ctx, [dict(type='tap', act='x', water=f, lam=2.)], lambda g: {'x': [[1., 1.]] * 144})
    sim = A.OccupancyApplianceSimulator([{}], [1], data, start_datetime=ctx.dt.datetime(2014, 1, 1), equipped_sampling_algo='all')
    # started at the first step only
    drawn = []
    vol = None
    for t in range(T):
        sim.appliances['switch_on_prob_crest'] = np.array([1. if t == 0 else 0.])
        k = ctx.n_draws()
        sim.step(np.array([1]))
        if t == 0:
            vs = [ctx.draw(i) for i in range(k, ctx.n_draws())][1:]
            ctx.assume(ctx.And(*[v <= top for v in vs]))
            # the volume is drawn more than once, the last one is used
            vol = vs[-1]
        drawn.append(rows(ctx, sim.get_current_water_consumptions())[0][0])
        ctx.check(ctx.Iff(rows(ctx, sim.get_current_usage())[0][0], drawn[-1] > 0), 'water flows while it is on')
        ctx.check(ctx.And(drawn[-1] >= 0, drawn[-1] <= f), 'flow')
    ctx.check(ctx.close(ctx.sum(drawn), vol), 'the volume is used')
    ctx.check(ctx.And(*[ctx.Implies(b > 0, a == f) for a, b in zip(drawn, drawn[1:])]), 'at once')


@harness(H, 'activity', 'appliances of two activities in n households and one always on; all ownerships and activities of T steps',
         quick=[dict(n=1, T=2), dict(n=2, T=1)], thorough=[dict(n=1, T=3)])
def activity(ctx, n, T):
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    acts = ['x', 'y', 'x', 'level', 'constant', 'gone']
    data = data_of(ctx, [dict(type='a%d' % j, act=a, inact=True, own=ctx.real('own%d' % j, 0, 1)) for j, a in enumerate(acts)])

    def activities(t):
        d = {a: ctx.ints('%s%d' % (a, t), n, 0, 2) for a in 'xyz'}
        return d
    now = activities(0)
    sim = A.ActivityApplianceSimulator(n, {k: np.array(v) for k, v in now.items()}, data=data, start_datetime=ctx.dt.datetime(2014, 1, 1))
    ctx.check(sim.appliances['number'] == 5 and list(sim.appliances['type']) == ['a%d' % j for j in range(5)], 'appliances of the activities')
    owned = rows(ctx, sim.available_appliances)
    for t in range(T + 1):
        on = rows(ctx, sim.get_current_usage())
        for i in range(n):
            for j, a in enumerate(acts[:5]):
                used = ctx.els(now[a])[i] > 0 if a in now else True
                ctx.check(ctx.Iff(on[i][j], ctx.And(owned[i][j], used)), 'on while someone does its activity')
        if t < T:
            now = activities(t + 1)
            sim.step({k: np.array(v) for k, v in now.items()})


def probabilistic_sim(ctx, n, specs, now, loads=None, **kw):
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    acts = sorted(now)
    data = data_of(ctx, [dict(s, prob=True) for s in specs], loads=loads, target=lambda g: {}, prob=lambda g: {a: np.array([.5, .5]) for a in acts},
                   starts=lambda g: {a: np.array([.5, .25, .25]) for a in acts})
    return A.ProbabiliticActivityAppliancesSimulator(n, {k: np.array(v) for k, v in now.items()}, data=data, start_datetime=ctx.dt.datetime(2014, 1, 1), **kw)


@harness(H, 'probabilistic', 'one appliance of any probability and duration of 1..T steps, delay of d steps, that stops or not with '
         'its activity; all activities and draws of T steps, values read or not between steps',
         quick=[dict(T=3, d=0, inact=False), dict(T=3, d=2, inact=False), dict(T=3, d=2, inact=True)],
         thorough=[dict(T=4, d=0, inact=True), dict(T=4, d=1, inact=False), dict(T=5, d=2, inact=True)])
def probabilistic(ctx, T, d, inact):
    np = ctx.np
    dur, own, p = ctx.int('dur', 1, T), ctx.real('own', 0, 1), ctx.real('p', 0, 1)
    acts = [ctx.ints('x%d' % t, 1, 0, 2) for t in range(T + 1)]
    sim = probabilistic_sim(ctx, 1, [dict(type='a', act='x', dur=dur, delay=d, inact=inact, own=own)], {'x': acts[0]})
    sim.switch_on_probs = np.array([[p]])
    owned = rows(ctx, sim.available_appliances)[0][0]
    read = ctx.choice('read', [True, False])
    on, stop, left = [False], [False], [0]
    for t in range(1, T + 1):
        if read:
            on[-1] = rows(ctx, sim.get_current_usage())[0][0]
        k = ctx.n_draws()
        sim.step({'x': np.array(acts[t])})
        yes, no = draws_decide(ctx, k, p)
        left.append(rows(ctx, sim.n_steps_left)[0][0])
        on.append(left[-1] > 0)
        x, y = ctx.els(acts[t - 1])[0], ctx.els(acts[t])[0]
        stop.append(ctx.And(inact, x > 0, y == 0))
        start = ctx.And(on[-1], left[-1] >= left[-2])
        ctx.check(ctx.Implies(start, ctx.And(owned, left[-2] <= 1, y > 0, ctx.Not(no), p > 0, left[-1] == dur)), 'starts only when it may')
        ctx.check(ctx.Implies(ctx.And(left[-2] > 0, ctx.Not(start)), left[-1] == ctx.ite(stop[-1], 0, left[-2] - 1)), 'its time left decreases')
        if t == 1 and d == 0:
            ctx.check(ctx.Implies(ctx.And(owned, y > 0, yes), on[-1]), 'starts with the activity')
    on[-1] = rows(ctx, sim.get_current_usage())[0][0]
    ctx.cover(ctx.And(on[1], ctx.Not(on[-1])), 'a whole cycle')
    if d:
        run_length(ctx, on, owned, stop, dur, d)


@harness(H, 'followers', 'k appliances that follow an appliance of type a and one that follows an activity; all ownerships, times left, '
         'probabilities and draws of one step', quick=[dict(k=0, g=1), dict(k=1, g=1), dict(k=2, g=0)], thorough=[dict(k=2, g=1), dict(k=3, g=0)])
def followers(ctx, k, g):
    """Appliances that follow another one or an activity start when that ends, and then only."""
    np = ctx.np
    specs = [dict(type='a', act='x')]
    specs += [dict(type='f%d' % i, act='x', prev_type='a') for i in range(k)] + [dict(type='g', act='z', prev_act='y')] * g
    dur = ctx.int('dur', 1, 5)
    specs = [dict(s, dur=dur) for s in specs]
    m = len(specs)
    last = {a: ctx.ints(a + '0', 1, 0, 1) for a in 'xyz'}
    now = {a: ctx.ints(a + '1', 1, 0, 1) for a in 'xyz'}
    sim = probabilistic_sim(ctx, 1, specs, last)
    p = ctx.reals('p', (1, m), 0, 1)
    own, left = ctx.bools('own', (1, m)), ctx.ints('left', (1, m), 0, 2)
    o, l0, ps = ctx.els(own), ctx.els(left), ctx.els(p)
    for a, b in zip(o, l0):
        ctx.assume(ctx.Implies(b > 0, a))
    sim.switch_on_probs, sim.available_appliances, sim.n_steps_left = np.array(p), np.array(own), np.array(left) * 1.
    n = ctx.n_draws()
    sim.step({a: np.array(v) for a, v in now.items()})
    on, l1 = ctx.els(sim.get_current_usage()), ctx.els(sim.n_steps_left)
    started = [ctx.And(x, y >= z) for x, y, z in zip(on, l1, l0)]
    ends = ctx.And(o[0], l0[0] == 1)
    for j, s in enumerate(specs):
        yes, no = draws_decide(ctx, n, ps[j])
        ctx.check(ctx.Implies(on[j], o[j]), 'only appliances of the household run')
        ctx.check(ctx.Implies(started[j], ctx.And(l1[j] == dur, l0[j] <= 1, ctx.Not(no))), 'a start')
        if s.get('prev_type'):
            why = ends
        elif s.get('prev_act'):
            why = ctx.And(ctx.els(last['y'])[0] > 0, ctx.els(now['y'])[0] == 0)
        else:
            why = ctx.els(now['x'])[0] > 0
        ctx.check(ctx.Implies(started[j], why), 'starts only when allowed')
        ctx.check(ctx.Implies(ctx.And(why, o[j], l0[j] <= 1, yes), on[j]), 'starts when allowed')
        ctx.check(ctx.Implies(ctx.And(l0[j] > 0, ctx.Not(started[j])), l1[j] == l0[j] - 1), 'its time left decreases')


@harness(H, 'followers_of_many', 'k appliances that follow an appliance of type a, in n households that have all of them; all times left of the '
         'former, probabilities and draws of one step', quick=[dict(k=0, n=2), dict(k=2, n=2)], thorough=[dict(k=2, n=3)])
def followers_of_many(ctx, k, n):
    np = ctx.np
    specs = [dict(type='a', act='x', dur=3)] + [dict(type='f%d' % i, act='x', prev_type='a', dur=3) for i in range(k)]
    none = {'x': [0] * n}
    sim = probabilistic_sim(ctx, n, specs, none)
    p, left = ctx.reals('p', (n, k + 1), 0, 1), ctx.ints('left', n, 0, 2)
    ps, l0 = rows(ctx, p), ctx.els(left)
    sim.switch_on_probs = np.array(p)
    sim.n_steps_left = np.array([[x * 1.] + [0.] * k for x in l0])
    c = ctx.n_draws()
    sim.step({'x': np.array(none['x'])})
    on = rows(ctx, sim.get_current_usage())
    for i in range(n):
        ctx.check(ctx.Iff(on[i][0], l0[i] == 2), 'its time left decreases')
        for j in range(1, k + 1):
            yes, no = draws_decide(ctx, c, ps[i][j])
            ctx.check(ctx.Implies(on[i][j], ctx.And(l0[i] == 1, ctx.Not(no))), 'starts only when the other one stops in this household')
            ctx.check(ctx.Implies(ctx.And(l0[i] == 1, yes), on[i][j]), 'starts when allowed')


@harness(H, 'profiles', 'n households with an appliance of one of two load profiles of lengths a and b and one of a rated power, of any duration, switched on '
         'together, for each kind of simulator; all draws and probabilities', quick=[dict(n=2, a=1, b=3, kind=k) for k in ('probabilistic', 'occupancy')],
         thorough=[dict(n=3, a=4, b=2, kind=k) for k in ('probabilistic', 'occupancy')])
def profiles(ctx, n, a, b, kind):
    """Every appliance runs as long as its own load profile."""
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    loads = {'t': {'p': np.array([10. + i for i in range(a)]), 'q': np.array([20. + i for i in range(b)])}}
    dur = ctx.int('dur', 1, 9)
    specs = [dict(type='t', act='x', delay=2, dur=5), dict(type='u', act='x', dur=dur)]
    common = dict(equipped_sampling_algo='all', real_profiles_algo='only_switched_on')
    if kind == 'occupancy':
        sim = A.OccupancyApplianceSimulator([{}], [n], data_of(ctx, specs, lambda g: {'x': [[.5, .5]] * 144}, loads=loads),
                                            start_datetime=ctx.dt.datetime(2014, 1, 1), **common)
    else:
        sim = probabilistic_sim(ctx, n, specs, {'x': [0] * n}, loads=loads, **common)
        sim.switch_on_probs = np.array(ctx.reals('p', (n, 2), 0, 1))
    sim.n_steps_till_refresh = np.array([[0, 0]] * n)
    x = np.array([1] * n)
    sim.step(x if kind == 'occupancy' else {'x': x})
    on, left, watt, wait = (rows(ctx, v) for v in (sim.get_current_usage(), sim.n_steps_left, sim.get_current_power_consumptions(), sim.n_steps_till_refresh))
    for i in range(n):
        own = ctx.Or(ctx.And(watt[i][0] == 10, left[i][0] == a), ctx.And(watt[i][0] == 20, left[i][0] == b))
        ctx.check(ctx.Implies(on[i][0], own), 'its cycle is its load profile')
        ctx.check(ctx.Implies(on[i][0], wait[i][0] == left[i][0] + 2), 'then it waits')
        ctx.check(ctx.Implies(on[i][1], left[i][1] == dur), 'its cycle is its duration')
    ctx.cover(ctx.And(on[0][0], on[1][0], left[0][0] == a, left[1][0] == b), 'profiles of different lengths together')
