"""Encoded household activities conserve the residents."""
from symx.run import harness
from harness.c09 import lookup

H = []
NOT_COVERED = ['data files: the data set is a stand-in that returns unknown matrices and household states',
               'SparseActivitySimulator (its constructor only reads files of an old data set, its own docstring calls it not fully implemented)',
               'more households, states or steps than configured']
ASSUMPTIONS = ['a data set encodes each household state as the sum over activities of persons * 7^activity']
ACT = ['active', 'HWH', 'HOH']


def entries(ctx, name, t, k, certain=None):
    """(time, from, to, value) of a set of unknown matrices."""
    out = []
    for i in range(t):
        for a in range(k):
            for b, p in enumerate(ctx.pdf('%s_%d_%d' % (name, i, a), k)):
                out.append((i, a, b, p))
    return out


def sparse(ctx, es, k, t):
    np = ctx.np
    sp = ctx.mod('utils.sparse')
    return sp.SparseTPM(np.array([e[0] for e in es]), np.array([e[1] for e in es]), np.array([e[2] for e in es]),
                        np.array([e[3] for e in es]), k, t)


def stay(ctx, k, t=1):
    return sparse(ctx, [(i, a, a, 1.0) for i in range(t) for a in range(k)], k, t)


def coded(ctx, name, res):
    """The activities of the residents of a household and their code."""
    c = [ctx.int('%s_%s' % (name, a), 0, 6) for a in ACT]
    # (persons out may be active as well)
    ctx.assume(ctx.And(c[0] <= res, c[1] + c[2] <= res))
    return c, c[0] + 7 * c[1] + 49 * c[2]


def data_of(ctx, tpms, labels, pdf, acts=ACT):
    np = ctx.np

    class Data:
        refresh_time = ctx.dt.time(4, 0, 0)

        def __init__(self):
            self.asked = []

        def load_sparse_tpm(self, subgroup):
            self.asked.append(dict(subgroup))
            i = min(len(self.asked), len(tpms)) - 1
            return tpms[i], np.array(labels[min(i, len(labels) - 1)]), np.array(acts), np.array(pdf)
    return Data()


def counts_ok(ctx, sim, now, comp, res):
    """All quantities follow from the activities comp[state] of each household."""
    np = ctx.np
    n = [[lookup(ctx, [c[j] for c in comp], s) for s in now] for j in range(3)]
    for j, a in enumerate(ACT):
        for got in (sim.get_n_doing_activity(a), sim.get_n_doing_state(j), sim.get_n_doing_state(a)):
            ctx.check(ctx.shape(got) == (len(now),), 'one count per household')
            ctx.check(ctx.And(*[ctx.And(g == x, g >= 0, g <= res) for g, x in zip(ctx.els(got), n[j])]), 'persons in the activity')
    both = sim.get_n_doing_state(['HOH', 'active'])
    ctx.check(ctx.And(*[ctx.And(p == x, q == y) for p, q, x, y in zip(ctx.els(both[0]), ctx.els(both[1]), n[2], n[0])]), 'several activities at once')
    home = [res - a - b for a, b in zip(n[1], n[2])]
    occ, act, gain = (ctx.els(g) for g in (sim.get_occupancy(), sim.get_active_occupancy(), sim.get_thermal_gains()))
    ctx.check(ctx.And(*[ctx.And(o == h, o >= 0, o <= res) for o, h in zip(occ, home)]), 'occupancy')
    ctx.check(ctx.And(*[ctx.And(a == ctx.ite(x < h, x, h), a >= 0, a <= h) for a, x, h in zip(act, n[0], home)]), 'active occupancy')
    ctx.check(ctx.And(*[ctx.close(g, 147. * a + 84. * (h - a)) for g, a, h in zip(gain, act, home)]), 'thermal gains')
    return n


@harness(H, 'decode', 'all 196 (18, 40) codes of households of 6 (2, 3) residents, any of them for each of n households', quick=[dict(n=1, top=6), dict(n=2, top=2)], thorough=[dict(n=3, top=3)])
def decode(ctx, n, top):
    np = ctx.np
    S = ctx.mod('simulators.sparse_simulators')
    comp = [[a, b, c] for a in range(top + 1) for b in range(top + 1) for c in range(top + 1) if b + c <= top]
    comp = comp[1::2] + comp[::2]
    k = len(comp)
    sim = S.SparseTransitStatesSimulator(n, {'n_residents': top}, data_of(ctx, [stay(ctx, k)], [[a + 7 * b + 49 * c for a, b, c in comp]],
                                                                        [1.] + [0.] * (k - 1)))
    st = ctx.ints('state', n, 0, k - 1)
    sim.current_states = np.array(st)
    counts_ok(ctx, sim, ctx.els(st), comp, top)
    for bad in ('sleeping', 'out'):
        ctx.check(ctx.raises(lambda: sim.get_n_doing_activity(bad), ValueError)[0], 'an unknown activity is refused')
    ctx.check(ctx.raises(lambda: sim.get_n_doing_activity(1.5), TypeError)[0], 'a wrong type is refused')


@harness(H, 'formula', 'every code a + 7 b + 49 c of unknown numbers of persons, unknown number of residents', quick=[dict()])
def formula(ctx):
    np = ctx.np
    S = ctx.mod('simulators.sparse_simulators')
    res = ctx.int('residents', 1, 6)
    c, label = coded(ctx, 's', res)
    sim = S.SparseTransitStatesSimulator(1, {'n_residents': res}, data_of(ctx, [stay(ctx, 1)], [[label]], [1.]))
    counts_ok(ctx, sim, [0], [c], res)


@harness(H, 'steps', 'all matrices of k states and t times, all draws, m households, n steps',
         quick=[dict(k=2, t=2, m=1, n=2), dict(k=2, t=1, m=2, n=1)], thorough=[dict(k=3, t=2, m=1, n=2), dict(k=2, t=2, m=1, n=3)])
def steps(ctx, k, t, m, n):
    np = ctx.np
    S = ctx.mod('simulators.sparse_simulators')
    es = entries(ctx, 'p', t, k)
    tab = [[[e[3] for e in es if e[0] == i and e[1] == a] for a in range(k)] for i in range(t)]
    pdf = ctx.pdf('init', k)
    comp = [[1, 1, 0], [3, 0, 2], [2, 0, 1], [0, 0, 3]][:k]
    labels = [a + 7 * b + 49 * c for a, b, c in comp]
    sim = S.SparseTransitStatesSimulator(m, {'n_residents': 3}, data_of(ctx, [sparse(ctx, es, k, t)], [list(labels)], pdf))
    now = ctx.els(sim.current_states)
    for s in now:
        ctx.check(lookup(ctx, pdf, s) > 0, 'a possible initial state')
    counts_ok(ctx, sim, now, comp, 3)
    for c in range(n):
        sim.step()
        new = ctx.els(sim.current_states)
        for a, b in zip(now, new):
            ctx.check(lookup(ctx, tab[c % t], a, b) > 0, 'a possible transition of the current time')
        ctx.check(sim.current_time_step == c + 1, 'counter')
        counts_ok(ctx, sim, new, comp, 3)
        now = new


def attributes(use7, useends, quarters, t):
    d = {}
    if use7 and useends:
        d['weekday'] = 0
    elif use7:
        d['weekday'] = t.isoweekday()
    elif useends:
        d['weekday'] = [1, 2, 3, 4, 5] if t.isoweekday() <= 5 else [6, 7]
    else:
        d['weekday'] = 0
    d['quarter'] = (t.month + 2) // 3 if quarters else None
    return d


@harness(H, 'new_day', 'any change of the household states between two days: kept, moved, lost and new ones; any date',
         quick=[dict(m=2)], thorough=[dict(m=3)])
def new_day(ctx, m):
    """Changing the matrices keeps the activities of each household."""
    np = ctx.np
    S = ctx.mod('simulators.sparse_simulators')
    old = [8, 50, 0, 7]
    new = ctx.choice('new', [[0, 50, 8, 7], [50, 1, 0, 8, 57, 7], [57, 8, 49], [50], [8, 50, 0, 7]])
    start = ctx.dt.datetime(2014, 1, 4, 4)
    use7, ends, quart = bool(ctx.bool('use_7days')), bool(ctx.bool('use_week_ends')), bool(ctx.bool('use_quarters'))
    data = data_of(ctx, [stay(ctx, len(x)) for x in (old, old, new)], [old, old, new], [1.] + [0.] * (len(old) - 1))
    sim = S.SparseTransitStatesSimulator(m, {'n_residents': 2}, data, start_datetime=start, use_7days=use7, use_week_ends_days=ends,
                                         use_quarters=quart)
    ctx.check(len(data.asked) == 2, 'the data of the day is loaded at the start')
    st = ctx.ints('state', m, 0, len(old) - 1)
    sim.current_states = np.array(st)
    sim.update_new_day()
    now = ctx.els(sim.current_states)
    for a, b in zip(ctx.els(st), now):
        for i, lab in enumerate(old):
            if lab in new:
                ctx.check(ctx.Implies(a == i, b == new.index(lab)), 'households keep their state')
            else:
                ctx.check(ctx.Implies(a == i, ctx.And(b >= 0, b < len(new))), 'a valid state for a lost one')
    comp = [[c % 7, c // 7 % 7, c // 49] for c in new]
    counts_ok(ctx, sim, now, comp, 2)
    sim.step()
    ctx.check(ctx.eq(sim.current_states, np.array(now)), 'the new matrices are used')


@harness(H, 'dates', 'any date of 1999..2031 at 4 am', quick=[dict()])
def dates(ctx):
    """The data of the current day."""
    S = ctx.mod('simulators.sparse_simulators')
    start = ctx.datetime('t', minutes=False)
    ctx.assume(start.hour == 4)
    use7, ends, quart = bool(ctx.bool('use_7days')), bool(ctx.bool('use_week_ends')), bool(ctx.bool('use_quarters'))
    data = data_of(ctx, [stay(ctx, 1)], [[0]], [1.])
    sim = S.SparseTransitStatesSimulator(1, {'n_residents': 2}, data, start_datetime=start, use_7days=use7, use_week_ends_days=ends,
                                         use_quarters=quart)
    want = attributes(use7, ends, quart, start)
    a = data.asked[-1]
    ctx.check(ctx.And(same(ctx, a.get('weekday'), want['weekday']), same(ctx, a.get('quarter'), want['quarter']), a.get('n_residents') == 2),
              'data of the current day')


def same(ctx, a, b):
    if b is None or isinstance(b, list) or a is None or isinstance(a, list):
        return a == b
    return a == b


STARTS = [(2014, 1, 3), (2014, 1, 5), (2014, 1, 6), (2014, 4, 1)]


@harness(H, 'calendar', 'certain but unknown transitions around 4 am of each day type, the listed dates, start at any of the listed steps after 4 am, n steps',
         quick=[dict(use='use_7days', at=141, n=5), dict(use='use_quarters', at=142, n=4), dict(use='use_week_ends_days', at=2, n=2)],
         thorough=[dict(use=u, at=a, n=n) for u in ('use_7days', 'use_quarters', 'use_week_ends_days') for a, n in ((0, 3), (100, 46), (143, 3))])
def calendar(ctx, use, at, n):
    """Each step uses the matrices of the current day and time of day."""
    np = ctx.np
    S = ctx.mod('simulators.sparse_simulators')
    dt = ctx.dt
    T, k = 144, 2
    near = [i for i in range(T) if (i - at + 1) % T <= 5 or i < 2 or i == 143]
    store = {}

    def table(subgroup):
        key = repr(sorted((a, b) for a, b in subgroup.items() if b is not None and a != 'n_residents'))
        if key not in store:
            store[key] = [ctx.int('to_%d_%d' % (len(store), i), 0, 1) if i in near else 0 for i in range(T)]
        return store[key]

    class Certain(ctx.mod('utils.sparse').SparseTPM):
        """Sampling (decided in C04) of certain transitions."""

        def sparse_monte_carlo(self, time, states):
            return np.where(self.swap[time % T] == 1, 1 - states, states)

    class Data:
        def load_sparse_tpm(self, subgroup):
            tpm = Certain(np.arange(T), np.zeros(T, dtype=int), np.zeros(T, dtype=int), np.ones(T), k, T)
            tpm.swap = table(subgroup)
            return tpm, np.array([0, 1]), np.array(ACT), np.array([1., 0.])
    flags = dict(use_week_ends_days=use == 'use_week_ends_days', use_7days=use == 'use_7days', use_quarters=use == 'use_quarters')
    day = ctx.choice('day', STARTS[:3] if 'quart' not in use else STARTS[2:])
    start = dt.datetime(*day, 4) + dt.timedelta(minutes=10) * at
    sim = S.SparseTransitStatesSimulator(1, {'n_residents': 1}, Data(), start_datetime=start, **flags)
    ctx.check(sim.time == start, 'clock at the start')
    now = sim.current_states[0] + 0
    t = start
    for c in range(n):
        sim.step()
        new = sim.current_states[0] + 0
        d = t - dt.timedelta(hours=4)
        i = (d.hour * 60 + d.minute) // 10
        key = dict(attributes(flags['use_7days'], flags['use_week_ends_days'], flags['use_quarters'], d), n_residents=1)
        v = table(key)[i]
        ctx.check(new == ctx.ite(v == 1, 1 - now, now), 'the matrix of the current time and day')
        t = t + dt.timedelta(minutes=10)
        ctx.check(sim.time == t, 'clock')
        now = new


@harness(H, 'several', 'any household states of two groups', quick=[dict()])
def several(ctx):
    np = ctx.np
    S = ctx.mod('simulators.sparse_simulators')
    comp = [[1, 1, 0], [0, 0, 1]]
    labels = [8, 49]

    class Data:
        def load_sparse_tpm(self, subgroup):
            return stay(ctx, 2), np.array(list(labels)), np.array(ACT), np.array([1., 0.])
    sizes = [1, 0, 2]
    sim = S.SubgroupsActivitySimulator([dict(n_residents=2), dict(n_residents=5), dict(n_residents=2)], sizes, data=Data())
    ctx.check(sim.n_households == 3, 'households of all groups')
    st = ctx.els(ctx.ints('state', 3, 0, 1))
    sim.simulators[0].current_states = np.array(st[:1])
    sim.simulators[1].current_states = np.array(st[1:])
    counts_ok(ctx, sim, st, comp, 2)
    ctx.check(ctx.eq(sim.n_residents, np.array([2, 2, 2])), 'residents of each household')
    sim.step()
    ctx.check(ctx.eq(np.concatenate([s.current_states for s in sim.simulators]), np.array(st)), 'every group makes the step')
    ctx.check(all(s.current_time_step == 1 for s in sim.simulators), 'counter')
    ctx.check(ctx.raises(lambda: S.SubgroupsActivitySimulator([{}], [1], subsimulator=dict), TypeError)[0], 'a wrong simulator is refused')
