"""Electric cars are driven or charging, never both."""
from symx.run import harness
from harness.c14 import draws_decide
from harness.c09 import lookup

H = []
NOT_COVERED = ['the file of the cars and charging stations: read_cars and read_charging_station return unknown numbers instead',
               'the battery capacity, which the simulator does not use', 'more households, cars or persons than configured']
ASSUMPTIONS = ['a car that charges is at home and needs energy (shown to hold initially and after every step)']
DRIVE = 46. * .5 / 6        # km per step of a used car


def make(ctx, cars, method, types=2, **kw):
    np = ctx.np
    E = ctx.mod('simulators.car_simulator').ElectricCarSimulator
    n = len(cars)
    cons, power = ctx.reals('consumption', types, 5, 40), ctx.reals('station', types, 1, 50)
    with ctx.patched(E, read_cars=lambda self, **k: {'proportion': np.array([1. / types] * types), 'consumption kWh/100km': np.array(cons), 'capacity kWh': np.array([50.] * types)},
                     read_charging_station=lambda self, **k: {'proportion': np.array([1. / types] * types), 'max charge power kW': np.array(power)},
                     sample_n_cars=lambda self, g: np.array(cars)):
        sim = E(n, np.array(kw['occ']), np.array(kw['hoh']), np.array(kw['hwh']), {}, charging_attribution_method=method)
    return sim, ctx.els(cons), ctx.els(power)


def consistent(ctx, sim, cars, power):
    use, cha, left = ctx.els(sim.in_use), ctx.els(sim.is_charging), ctx.els(sim.times_left_chargin)
    for u, c, t in zip(use, cha, left):
        ctx.check(ctx.Not(ctx.And(u, c)), 'driven or charging, never both')
        ctx.check(ctx.And(t >= 0, ctx.Implies(c, t > 0)), 'charges only while it needs energy')
    hh = [i for i, k in enumerate(cars) for _ in range(k)]
    n_used, watt = ctx.els(sim.get_n_used_cars()), ctx.els(sim.get_electric_consumption())
    st = ctx.els(sim.station_power)
    for i, k in enumerate(cars):
        ctx.check(n_used[i] == ctx.sum([ctx.ite(u, 1, 0) for u, h in zip(use, hh) if h == i] + [0]), 'cars away')
        ctx.check(ctx.And(n_used[i] >= 0, n_used[i] <= k), 'at most the cars of the household are away')
        ctx.check(ctx.Or(*[ctx.close(st[i], p * 1000) for p in power]), 'a station of the data')
        num = ctx.sum([ctx.ite(c, 1, 0) for c, h in zip(cha, hh) if h == i] + [0])
        ctx.check(watt[i] == st[i] * num, 'the station of the household feeds its charging cars')
        ctx.check(ctx.And(watt[i] >= 0, watt[i] <= st[i] * k), 'power within the ratings')
    return use, cha, left


@harness(H, 'step', 'one step of households with the given numbers of cars from any state, all persons of one of them (up to 3 away), ratings and draws',
         quick=[dict(cars=[2], method='mixed', moves=0), dict(cars=[1, 1], method='after use', moves=1), dict(cars=[0, 1], method='timers', moves=1)],
         thorough=[dict(cars=[1, 1], method='mixed', moves=0), dict(cars=[1, 0, 1], method='timers', moves=2), dict(cars=[3], method='after use', moves=0)])
def step(ctx, cars, method, moves):
    np = ctx.np
    n, m = len(cars), sum(cars)
    v = {(k, t): ctx.ints('%s%d' % (k, t), n, 0, 3) for k in ('occ', 'hoh', 'hwh') for t in (0, 1)}
    for (a, t), x in v.items():
        for i in range(n):
            if i != moves:
                x[i] = 1
    sim, cons, power = make(ctx, cars, method, 1, occ=v['occ', 0], hoh=v['hoh', 0], hwh=v['hwh', 0])
    consistent(ctx, sim, cars, power)
    ctx.check(not any(bool(x) for x in ctx.els(sim.in_use)), 'all cars at home initially')
    strat = ctx.els(sim.charging_strategy)
    ctx.check(len(strat) == n and ctx.And(*[ctx.Or(ctx.And(s == 0, method != 'timers'), ctx.And(s == 1, method != 'after use')) for s in strat]), 'strategy')
    use, cha = ctx.bools('use', m), ctx.bools('cha', m)
    left, used, timer = ctx.ints('left', m, 0, 200), ctx.ints('used', m, 0, 60), ctx.ints('timer', m, 0, 143)
    u0, c0, l0, d0, tm = (ctx.els(x) for x in (use, cha, left, used, timer))
    for a, b, c, d in zip(u0, c0, l0, d0):
        ctx.assume(ctx.And(ctx.Not(ctx.And(a, b)), ctx.Implies(b, c > 0), ctx.Implies(ctx.Not(a), d == 0)))
    sim.in_use, sim.is_charging, sim.times_left_chargin, sim.times_used, sim.car_timer = (np.array(x) for x in (use, cha, left, used, timer))
    sim.current_time_step = now = ctx.choice('step', [0, 100])
    own, stations = ctx.reals('own', m, 5, 40), ctx.reals('stations', n, 1000, 50000)
    sim.car_consumptions, sim.station_power, kinds, power = np.array(own), np.array(stations), ctx.els(own), [x / 1000 for x in ctx.els(stations)]
    k = ctx.n_draws()
    sim.step(*[np.array(v[x, 1]) for x in ('occ', 'hoh', 'hwh')])
    u1, c1, l1 = consistent(ctx, sim, cars, power)
    d1 = ctx.els(sim.times_used)
    ds = [ctx.draw(i) for i in range(k, ctx.n_draws())]
    hh = [i for i, c in enumerate(cars) for _ in range(c)]
    o0, o1, h0, h1, w0, w1 = (ctx.els(v[x, t]) for x in ('occ', 'hoh', 'hwh') for t in (0, 1))
    st = ctx.els(sim.station_power)
    clock = (now + 1) % 144
    for i in range(n):
        mine = [j for j in range(m) if hh[j] == i]
        away = ctx.sum([ctx.ite(u0[j], 1, 0) for j in mine] + [0])
        comes = ctx.Or(o1[i] > o0[i], h1[i] + w1[i] < away)
        goes = ctx.And(o1[i] < o0[i], ctx.Or(h1[i] > h0[i], w1[i] > w0[i]))
        gone = [ctx.And(ctx.Not(u0[j]), u1[j]) for j in mine]
        back = [ctx.And(u0[j], ctx.Not(u1[j])) for j in mine]
        ctx.check(ctx.Implies(ctx.Or(*gone), goes), 'a car leaves with somebody')
        ctx.check(ctx.Implies(ctx.Or(*back), comes), 'a car returns with somebody')
        for q in (gone, back):
            ctx.check(ctx.sum([ctx.ite(x, 1, 0) for x in q] + [0]) <= 1, 'one car at a time')
        if clock == 1:
            ctx.check(ctx.Not(ctx.Or(*(gone + back))), 'no trip starts or ends when the days are joined')
        else:
            p = ctx.ite(h1[i] > h0[i], lookup(ctx, [0, .6268, .818, .8791], o0[i] - o1[i]), ctx.ite(o0[i] > o1[i], .5223, 0))
            ctx.check(ctx.Implies(ctx.And(goes, away < len(mine), ctx.Not(ctx.Or(*back)), *[d < .47 for d in ds]), ctx.Or(*gone, ctx.And(h1[i] + w1[i] < away))), 'somebody may take a free car')
            ctx.check(ctx.Implies(ctx.And(goes, *[d > p for d in ds]), ctx.Not(ctx.Or(*gone))), 'somebody may leave without a car')
            must = ctx.And(h1[i] + w1[i] < away, ctx.Not(goes))
            ctx.check(ctx.Implies(must, ctx.Or(*back)), 'cars do not stay away without a driver')
        for j in mine:
            came = ctx.And(u0[j], ctx.Or(ctx.Not(u1[j]), d1[j] == 0))      # it may leave again at once
            need = kinds[j] * (d0[j] + 1) * DRIVE / 100. * 3.6e6 / st[i] / 600
            rest = l0[j] - ctx.ite(c0[j], 1, 0)
            ctx.check(ctx.Implies(ctx.Not(came), l1[j] == rest), 'charging decreases the need, nothing else')
            ctx.check(ctx.Implies(came, ctx.And(l1[j] - rest <= need + 1e-9, l1[j] - rest > need - 1 - 1e-9)), 'a trip adds its energy')
            ctx.check(d1[j] == ctx.ite(came, 0, d0[j] + ctx.ite(u0[j], 1, 0)), 'duration of a trip')
            till = ctx.ite(tm[j] - clock > 0, tm[j] - clock, tm[j] - clock + 144)
            home = ctx.Not(u1[j])
            due = ctx.And(sim_strategy(ctx, strat, i) == 1, ctx.Or(l1[j] == till, l1[j] > 144))
            now_due = ctx.And(home, l1[j] > 0, ctx.Or(due, l1[j] > 144, ctx.And(sim_strategy(ctx, strat, i) == 0, came), ctx.And(c0[j], rest > 0)))
            ctx.check(ctx.Iff(c1[j], now_due), 'charges when it is due until it is full')


def sim_strategy(ctx, strat, i):
    return strat[i]


@harness(H, 'trip', 'a household with one car that comes back after any trip; all ratings, T steps', quick=[dict(T=4)], thorough=[dict(T=7)])
def trip(ctx, T):
    """The energy charged at home is the one of the trip, in whole steps."""
    np = ctx.np
    sim, cons, power = make(ctx, [1], 'after use', occ=[0], hoh=[0], hwh=[1])
    used = ctx.int('used', 0, 6)
    sim.in_use, sim.times_used = np.array([True]), np.array([used])
    sim.current_time_step = 5
    watt = []
    for t in range(T):
        sim.step(np.array([1]), np.array([0]), np.array([0]))
        if ctx.els(sim.in_use)[0]:
            return
        watt.append(ctx.els(sim.get_electric_consumption())[0])
    st = ctx.els(sim.station_power)[0]
    need = ctx.els(sim.car_consumptions)[0] * (used + 1) * DRIVE / 100. * 3.6e6
    ctx.assume(need / st / 600 < T)
    got = ctx.sum(watt) * 600
    ctx.cover(got > 0, 'charges')
    ctx.check(ctx.And(got <= need * (1 + 1e-9), got > (need - st * 600) * (1 - 1e-9) - 1e-3), 'energy of the trip')
    ctx.check(ctx.And(*[ctx.Implies(b > 0, a > 0) for a, b in zip(watt, watt[1:])]), 'at once after the use')
