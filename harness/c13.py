"""Occupancy and thermal gains of the four-state model follow from its states."""
from symx.run import harness
from harness.c09 import lookup

H = []
NOT_COVERED = ['the CREST data file: the data set is a stand-in that returns unknown matrices of its states',
               'more residents, households, states or steps than configured']
ASSUMPTIONS = ['a state label is 10 * persons at home + persons awake, both between zero and the number of residents (the format of the CREST data)']
ACTIVE, DORMANT = 147., 84.


def data_of(ctx, labels, pdf=None, tpm=None, groups=None, n_pdf=None):
    np = ctx.np

    class Data:
        refresh_time = ctx.dt.time(0, 0, 0)

        def __init__(self):
            self.asked = []

        def load_tpm(self, subgroup):
            self.asked.append(dict(subgroup))
            lab = labels(subgroup)
            k = len(lab)
            t = tpm(subgroup, k) if tpm else np.array([np.eye(k)] * 2)
            p = pdf if pdf is not None else [1.] + [0.] * (k - 1)
            return t, np.array(lab), np.array(p)

        def load_population_subgroups(self, kind):
            return [dict(g) for g in groups], np.array(n_pdf), 1000
    return Data()


def all_labels(r):
    return [10 * h + a for h in range(r + 1) for a in range(r + 1)]


def meaning(ctx, sim, home, awake, res, label=''):
    occ, act, gain = (sim.get_occupancy(), sim.get_active_occupancy(), sim.get_thermal_gains())
    m = len(home)
    for g in (occ, act, gain):
        ctx.check(ctx.shape(g) == (m,), 'one value per household' + label)
    for o, a, g, h, w, r in zip(ctx.els(occ), ctx.els(act), ctx.els(gain), home, awake, res):
        ctx.check(ctx.And(o == h, o >= 0, o <= r), 'occupancy' + label)
        both = ctx.ite(h < w, h, w)
        ctx.check(ctx.And(a == both, a <= o, a >= 0), 'active occupancy' + label)
        ctx.check(ctx.close(g, ACTIVE * both + DORMANT * (h - both)), 'thermal gains' + label)
        ctx.check(ctx.And(g >= 0, ctx.Iff(g == 0, h == 0), g <= ACTIVE * h), 'thermal gains of the occupants only' + label)
    return gain


@harness(H, 'states', 'every state of each of m households of r residents, any order of the states', quick=[dict(r=r, m=m) for r, m in ((1, 2), (3, 2), (6, 2))],
         thorough=[dict(r=r, m=2) for r in range(1, 7)] + [dict(r=2, m=4)])
def states(ctx, r, m):
    np = ctx.np
    C = ctx.mod('simulators.crest_simulators')
    lab = all_labels(r)
    lab = lab[1::2] + lab[::2]
    data = data_of(ctx, lambda g: lab)
    day = ctx.choice('day', ['d', 'e'])
    sim = C.CrestOccupancySimulator(m, r, day, data=data)
    ctx.check(data.asked == [dict(n_residents=r, weekday=[1, 2, 3, 4, 5] if day == 'd' else [6, 7])], 'data of the residents and the kind of day')
    ctx.check(sim.n_states == (r + 1) ** 2 and ctx.eq(sim.current_states, np.zeros(m)), 'initial states')
    st = ctx.ints('state', m, 0, len(lab) - 1)
    sim.current_states = np.array(st)
    home = [lookup(ctx, [x // 10 for x in lab], s) for s in ctx.els(st)]
    awake = [lookup(ctx, [x % 10 for x in lab], s) for s in ctx.els(st)]
    meaning(ctx, sim, home, awake, [r] * m)


@harness(H, 'kept', 'every state of a household of r residents, one step', quick=[dict(r=2)], thorough=[dict(r=3)])
def kept(ctx, r):
    """Values are those of the current step."""
    np = ctx.np
    C = ctx.mod('simulators.crest_simulators')
    lab = all_labels(r)
    new = lab[1:] + lab[:1]
    k = len(lab)
    sim = C.CrestOccupancySimulator(1, r, 'd', data=data_of(ctx, lambda g: lab, tpm=lambda g, k: np.array([np.eye(k)[[*range(1, k), 0]]] * 2)))
    st = ctx.ints('state', 1, 0, k - 1)
    sim.current_states = np.array(st)
    s = ctx.els(st)[0]
    meaning(ctx, sim, [lookup(ctx, [x // 10 for x in lab], s)], [lookup(ctx, [x % 10 for x in lab], s)], [r])
    sim.step()
    meaning(ctx, sim, [lookup(ctx, [x // 10 for x in new], s)], [lookup(ctx, [x % 10 for x in new], s)], [r], ' after a step')


@harness(H, 'labels', 'labels of unknown numbers of persons at home and awake, up to 9 of each', quick=[dict()])
def labels(ctx):
    """The decoding and the heat of two states compared."""
    np = ctx.np
    C = ctx.mod('simulators.crest_simulators')
    h, w = (ctx.els(ctx.ints(x, 2, 0, 9)) for x in ('home', 'awake'))
    lab = [10 * a + b for a, b in zip(h, w)]
    data = data_of(ctx, lambda g: lab + [0, 0])
    sim = C.CrestOccupancySimulator(2, 1, 'd', data=data)
    sim.current_states = np.array([0, 1])
    g = ctx.els(meaning(ctx, sim, h, w, [9, 9]))
    ctx.check(ctx.Implies(ctx.And(h[0] <= h[1], w[0] <= w[1]), g[0] <= g[1]), 'more persons give more heat')
    ctx.check(ctx.Implies(ctx.And(h[0] <= h[1], w[0] == w[1]), g[0] <= g[1]), 'more persons at home give more heat')


@harness(H, 'initial', 'all initial distributions and matrices of households of one resident', quick=[dict(m=1, n=1)], thorough=[dict(m=2, n=1), dict(m=1, n=2)])
def initial(ctx, m, n):
    C = ctx.mod('simulators.crest_simulators')
    np = ctx.np
    lab = [0, 1, 10, 11]
    pdf = ctx.pdf('init', 4)
    t = [[ctx.pdf('p_%d_%d' % (i, j), 4) if j > 1 else [.25] * 4 for j in range(4)] for i in range(2)]
    data = data_of(ctx, lambda g: lab, pdf=pdf, tpm=lambda g, k: np.array(t))
    sim = C.CrestOccupancySimulator(m, 1, 'e', data=data)
    for c in range(n + 1):
        st = [s + 0 for s in ctx.els(sim.current_states)]
        for s in st:
            ctx.check(ctx.And(s >= 0, s < 4), 'a state')
            if c == 0:
                ctx.check(lookup(ctx, pdf, s) > 0, 'a possible initial state')
        if c:
            for a, b in zip(old, st):
                ctx.check(lookup(ctx, t[c % 2], a, b) > 0, 'a possible transition')
        meaning(ctx, sim, [lookup(ctx, [0, 0, 1, 1], s) for s in st], [lookup(ctx, [0, 1, 0, 1], s) for s in st], [1] * m)
        old = st
        if c < n:
            sim.step()


@harness(H, 'population', 'any state of every household, the listed populations', quick=[dict(n=4, p=(.5, 0., .25, .25)), dict(n=1, p=(0., 1.))],
         thorough=[dict(n=5, p=(.25, .25, .5)), dict(n=3, p=(0., 0., .5, 0., .5))])
def population(ctx, n, p):
    np = ctx.np
    C = ctx.mod('simulators.crest_simulators')
    U = ctx.mod('simulators.util')
    groups = [dict(n_residents=i + 1) for i in range(len(p))]
    data = data_of(ctx, lambda g: all_labels(g['n_residents']), groups=groups, n_pdf=p)
    sim = C.Crest4StatesModel(n, data=data, start_datetime=ctx.dt.datetime(2014, 1, 1))
    numbers = [int(x) for x in ctx.els(U.sample_population(n, np.array(p)))]
    res = [r + 1 for r, c in enumerate(numbers) for _ in range(c)]
    ctx.check(sim.n_households == n and [int(x) for x in ctx.els(sim.n_residents)] == res, 'households of every size')
    ctx.check([dict(s.subgroup) for s in sim.simulators] == [dict(n_residents=r + 1) for r, c in enumerate(numbers) if c], 'subgroups')
    home, awake, at = [], [], 0
    for s in sim.simulators:
        r = s.n_residents
        st = ctx.ints('state_%d' % r, s.n_households, 0, (r + 1) ** 2 - 1)
        s.current_states = np.array(st)
        lab = all_labels(r)
        home += [lookup(ctx, [x // 10 for x in lab], v) for v in ctx.els(st)]
        awake += [lookup(ctx, [x % 10 for x in lab], v) for v in ctx.els(st)]
    ctx.check(ctx.And(*[x == 10 * a + b for x, a, b in zip(ctx.els(sim.get_states_labeled()), home, awake)]), 'labelled states')
    meaning(ctx, sim, home, awake, res)
    sim.step()
    meaning(ctx, sim, home, awake, res, ' after a step')
    ctx.check(ctx.raises(lambda: C.Crest4StatesModel(n, data=data, step_size=ctx.dt.timedelta(minutes=10)), ValueError)[0], 'a step size is refused')
    ctx.check(ctx.raises(lambda: C.CrestOccupancySimulator(1, 1, 'x', data=data), TypeError)[0], 'an unknown kind of day is refused')


STARTS = [(2014, 1, 1), (2014, 1, 3), (2014, 1, 5), (2014, 1, 4)]


@harness(H, 'calendar', 'certain but unknown transitions around the given time, the listed dates', quick=[dict(at=143, n=3), dict(at=0, n=2)],
         thorough=[dict(at=142, n=4), dict(at=60, n=3)])
def calendar(ctx, at, n):
    """Each step uses the matrix of its time for the kind of day."""
    np = ctx.np
    C = ctx.mod('simulators.crest_simulators')
    dt = ctx.dt
    T = 144
    # the first and last steps, and those around a change of the day
    steps = [j for j in range(n) if j < 2 or j >= n - 2 or (at + j) % T in (T - 1, 0, 1)]
    near = {(at + j + 1) % T for j in steps}
    store = {}

    def table(we):
        if we not in store:
            rows = []
            for i in range(T):
                if i in near:
                    b = ctx.bool('swap_%s_%d' % ('we' if we else 'wd', i))
                    rows.append((ctx.ite(b, 0., 1.), ctx.ite(b, 1., 0.)))
                else:
                    rows.append((1., 0.))
            store[we] = rows
        return store[we]

    def tpm(subgroup, k):
        # states away (0, 1) stay, states at home asleep and awake swap
        z, o = 0., 1.
        return np.array([[[o, z, z, z], [z, o, z, z], [z, z, a, b], [z, z, b, a]] for a, b in table(subgroup['weekday'] == [6, 7])])
    data = data_of(ctx, lambda g: [0, 1, 10, 11], pdf=[0., 0., 1., 0.], tpm=tpm, groups=[dict(n_residents=1)], n_pdf=[1.])
    day = ctx.choice('day', STARTS)
    start = dt.datetime(*day) + dt.timedelta(minutes=10) * at
    sim = C.Crest4StatesModel(1, data=data, start_datetime=start)
    ctx.check(sim.current_time == start, 'clock at the start')
    now = sim.get_active_occupancy()[0] + 0
    t = start
    for c in range(n):
        sim.step()
        new = sim.get_active_occupancy()[0] + 0
        i = (t.hour * 60 + t.minute) // 10
        swap = table(t.isoweekday() > 5)[(i + 1) % T][1]
        ctx.check(new == ctx.ite(swap > .5, 1 - now, now), 'the matrix of the time and the kind of day')
        t = t + dt.timedelta(minutes=10)
        ctx.check(sim.current_time == t, 'clock')
        ctx.check(sim.get_occupancy()[0] == 1, 'still at home')
        now = new
