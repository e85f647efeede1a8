"""Household activity totals count every resident exactly once."""
from symx.run import harness
from harness.c09 import lookup

H = []
NOT_COVERED = ['compositions other than the listed household types, larger groups', 'the reading of the data files: the data set is a stand-in that returns '
               'unknown matrices per subgroup', 'thermal gains (not offered by this simulator)']
B = ('the listed household kinds, 0..top households of each, any activity of every person, '
     'two activities besides sleeping and away')

KINDS = {
    'single': dict(household_type=1, n_residents=1),
    'couple': dict(household_type=2, n_residents=2),
    'parent': dict(household_type=3, n_residents=3),
    'family': dict(household_type=4, n_residents=4),
    'other': dict(household_type=5, n_residents=2),
    'aged': dict(n_residents=1, hh_mean_age=70),
    'aged2': dict(n_residents=2, hh_mean_age=70),
    'geo': dict(household_type=2, n_residents=2, geographic_state=1),
}
# the persons of each, as their subgroups
PERSONS = {
    'single': [{}],
    'couple': [dict(household_position=1), dict(household_position=2)],
    'parent': [dict(household_position=1), dict(household_position=3), dict(household_position=3)],
    'family': [dict(household_position=1), dict(household_position=2), dict(household_position=3), dict(household_position=3)],
    'other': [{}, {}],
    'aged': [dict(age=70)],
    'aged2': [dict(hh_mean_age=70)] * 2,
    'geo': [dict(household_position=1, geographic_state=1), dict(household_position=2, geographic_state=1)],
}
LABELS = ['cooking', 'sleeping', 'washing', 'away']


def fake(ctx, semi=False):
    np = ctx.np
    k = len(LABELS)

    class Data:
        refresh_time = ctx.dt.time(4, 0, 0)
        asked = []

        def load_tpm(self, subgroup):
            self.asked.append(dict(subgroup))
            return np.array([np.eye(k)] * 3), np.array(LABELS), np.array([1.] + [0.] * (k - 1))

        def load_tpm_with_duration(self, subgroup):
            self.asked.append(dict(subgroup))
            d = np.array([[[0., 0., 1.]] * k] * 3)
            return np.array([np.eye(k)] * 3), d, np.array(LABELS), np.array([1.] + [0.] * (k - 1)), d[0]
    d = Data()
    d.asked = []
    return d


def same_bag(a, b):
    b = list(b)
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return not b


def build(ctx, kinds, top, semi, low=0):
    A = ctx.mod('simulators.activity_simulators')
    groups = [dict(KINDS[k]) for k in kinds]
    n = [int(ctx.int('n_%d' % i, low, top)) for i in range(len(kinds))]
    ctx.assume(sum(n) > 0)
    data = fake(ctx)
    kw = dict(subsimulator=A.SemiMarkovSimulator) if semi else {}
    sim = A.SubgroupsIndividualsActivitySimulator(groups, n, data=data, **kw)
    ctx.check(groups == [KINDS[k] for k in kinds], 'the given subgroups are unaltered')
    return sim, n, data


def place(ctx, sim):
    """The household of each simulated person, found by letting only this
    person cook."""
    np = ctx.np
    states = [[3] * s.n_households for s in sim.simulators]

    def put():
        for s, v in zip(sim.simulators, states):
            s.current_states = np.array(v)
    home = []
    for i, row in enumerate(states):
        home.append([])
        for p in range(len(row)):
            row[p] = 0
            put()
            got = [int(x) for x in ctx.els(sim.get_n_doing_activity('cooking'))]
            ctx.check(len(got) == sim.n_households and sum(got) == 1, 'a person is counted in exactly one household')
            home[i].append(got.index(1))
            row[p] = 3
    return home


@harness(H, 'places', B, quick=[dict(kinds=('couple', 'single'), top=2, semi=False), dict(kinds=('parent', 'couple', 'aged'), top=1, semi=False),
                                dict(kinds=('other', 'geo', 'single'), top=1, semi=True), dict(kinds=('family',), top=1, semi=False),
                                dict(kinds=('single', 'couple'), top=4, semi=False, placing=True),
                                dict(kinds=('aged', 'single', 'other'), top=2, semi=True, placing=True)],
         thorough=[dict(kinds=('couple', 'aged', 'single'), top=1, semi=False), dict(kinds=('aged2', 'other', 'parent'), top=1, semi=False),
                   dict(kinds=('single', 'couple'), top=3, semi=True),
                   dict(kinds=('parent', 'single', 'family'), top=3, semi=False, placing=True)])
def places(ctx, kinds, top, semi, placing=False):
    np = ctx.np
    sim, n, data = build(ctx, kinds, top, semi)
    hh = [k for k, c in zip(kinds, n) for _ in range(c)]
    ctx.check(sim.n_households == len(hh), 'number of households')
    ctx.check(ctx.eq(sim.n_residents, np.array([KINDS[k]['n_residents'] for k in hh])), 'residents of each household')
    home = place(ctx, sim)
    flat = [h for r in home for h in r]
    for h, k in enumerate(hh):
        ctx.check(flat.count(h) == KINDS[k]['n_residents'], 'as many persons as residents')
        mine = [dict(g) for g, r in zip(sim.subgroups_persons, home) for x in r if x == h]
        ctx.check(same_bag(mine, PERSONS[k]), 'the persons of a household keep their subgroup')
    ctx.check(len(data.asked) == len(sim.simulators), 'data for each kind of person')
    for g, a in zip(sim.subgroups_persons, data.asked):
        ctx.check(dict(g) == a, 'data of the subgroup of the person')
    if placing:
        return
    # the activity of every person is that or another one
    lab = ctx.choice('activity', LABELS)
    j = LABELS.index(lab)
    exp = [0] * len(hh)
    for i, s in enumerate(sim.simulators):
        v = ctx.ints('state_%d' % i, s.n_households, 0, len(LABELS) - 1)
        s.current_states = np.array(v)
        for x, h in zip(ctx.els(v), home[i]):
            exp[h] = exp[h] + ctx.ite(x == j, 1, 0)
    got = sim.get_n_doing_activity(lab) if bool(ctx.bool('direct')) else sim.get_performing_activity(lab)
    ctx.check(ctx.shape(got) == (len(hh),), 'one count per household')
    ctx.check(ctx.And(*[a == b for a, b in zip(ctx.els(got), exp)]), 'the persons of the household in the activity')


@harness(H, 'occupancy', B, quick=[dict(kinds=('couple', 'single'), top=1), dict(kinds=('parent',), top=1)],
         thorough=[dict(kinds=('couple', 'other'), top=1), dict(kinds=('single', 'aged'), top=2)])
def occupancy(ctx, kinds, top):
    np = ctx.np
    sim, n, data = build(ctx, kinds, top, False)
    hh = [k for k, c in zip(kinds, n) for _ in range(c)]
    home = place(ctx, sim)
    st = []
    for i, s in enumerate(sim.simulators):
        v = ctx.ints('state_%d' % i, s.n_households, 0, len(LABELS) - 1)
        s.current_states = np.array(v)
        st.append(ctx.els(v))
    exp = {}
    for j, lab in enumerate(LABELS):
        exp[lab] = [ctx.sum([ctx.ite(v == j, 1, 0) for vs, hs in zip(st, home) for v, x in zip(vs, hs) if x == h] + [0])
                    for h in range(len(hh))]
    states = sim.get_activity_states()
    occ, act = sim.get_occupancy(), sim.get_active_occupancy()
    for lab in LABELS:
        ctx.check(ctx.And(*[a == b for a, b in zip(ctx.els(states[lab]), exp[lab])]), 'the persons of the household in the activity')
    both = sim.get_n_doing_activity(['away', 'cooking'])
    ctx.check(ctx.And(ctx.eq(both[0], states['away']), ctx.eq(both[1], states['cooking'])), 'several activities at once')
    res = [KINDS[k]['n_residents'] for k in hh]
    ctx.check(ctx.And(*[o == r - e for o, r, e in zip(ctx.els(occ), res, exp['away'])]), 'occupants are those not away')
    ctx.check(ctx.And(*[o == r - e - s for o, r, e, s in zip(ctx.els(act), res, exp['away'], exp['sleeping'])]), 'active occupants')
    ctx.check(ctx.And(*[ctx.And(a >= 0, a <= o, o <= r) for a, o, r in zip(ctx.els(act), ctx.els(occ), res)]), 'bounds')
    ctx.check(ctx.eq(states['active_occupancy'], act), 'active occupancy in the activities')
    ctx.check(ctx.And(*[ctx.sum([exp[l][h] for l in LABELS]) == res[h] for h in range(len(hh))]), 'every resident has one activity')


@harness(H, 'next_step', B + '; values are of the current step', quick=[dict(semi=False), dict(semi=True)])
def next_step(ctx, semi):
    np = ctx.np
    sim, n, data = build(ctx, ('couple',), 1, semi, low=1)
    for t in range(2):
        for i, s in enumerate(sim.simulators):
            s.current_states = np.array(ctx.ints('state_%d_%d' % (t, i), 1, 0, 3))
            if semi:
                s.times_left = np.array([9])
        want = ctx.sum([ctx.ite(s.current_states[0] == 3, 1, 0) for s in sim.simulators])
        sim.step()
        ctx.check(sim.get_occupancy()[0] == 2 - want, 'occupancy of the current step')
        ctx.check(sim.get_activity_states()['away'][0] == want, 'activities of the current step')
        ctx.check(sim.current_time_step == t + 1, 'counter')


def calendar(ctx, kind, t):
    """The time attributes of a date."""
    w = t.isoweekday()
    out = {}
    if kind == 'use_week_ends_days':
        out['weekday'] = [1, 2, 3, 4, 5] if w <= 5 else [6, 7]
    elif kind == 'use_week_sat_sun':
        out['weekday'] = [1, 2, 3, 4, 5] if w <= 5 else w
    elif kind == 'use_7days':
        out['weekday'] = w
    elif kind == 'use_quarters':
        out['quarter'] = (t.month + 2) // 3
    return out


STARTS = [(2014, 1, 3), (2014, 1, 4), (2014, 1, 6), (2014, 4, 1), (2013, 10, 1), (2014, 3, 31)]


@harness(H, 'calendar_matrices', 'matrices of certain but unknown transitions around the refresh time, the listed dates; '
         'starts at the given number of steps after 4 am', quick=[dict(kind='use_week_ends_days', at=142, n=4, semi=False), dict(kind='use_quarters', at=142, n=4, semi=False)]
         + [dict(kind='use_7days', at=143, n=3, semi=True), dict(kind='use_week_sat_sun', at=0, n=3, semi=False), dict(kind='use_7days', at=143, n=2, semi=False, people=2, days=1),
            dict(kind='use_quarters', at=0, n=2, semi=True, people=2)],
         thorough=[dict(kind=k, at=141, n=6, semi=s) for k in ('use_week_ends_days', 'use_quarters', 'use_7days', 'use_week_sat_sun') for s in (False, True)]
         + [dict(kind='none', at=141, n=6, semi=False)]
         + [dict(kind='use_7days', at=143, n=2, semi=s, people=2) for s in (False, True)])
def calendar_matrices(ctx, kind, at, n, semi, people=1, days=3):
    """Each step uses the matrix of the current time of the matrices of the current day."""
    np = ctx.np
    A = ctx.mod('simulators.activity_simulators')
    dt = ctx.dt
    T, k = 144, 2
    near = [i for i in range(T) if (i - at) % T <= n + 1 or i < 3]
    store = {}

    def table(subgroup):
        key = repr(sorted(subgroup.items()))
        if key not in store:
            rows = []
            for i in range(T):
                if i in near:
                    b = ctx.bool('swap_%d_%d' % (len(store), i))
                    rows.append((ctx.ite(b, 0., 1.), ctx.ite(b, 1., 0.)))
                else:
                    rows.append((1., 0.))
            store[key] = rows
        return store[key]

    class Data:
        refresh_time = dt.time(4, 0, 0)

        def load_tpm(self, subgroup):
            return np.array([[[a, b], [b, a]] for a, b in table(subgroup)]), np.array(['sleeping', 'away']), np.array([1., 0.])

        def load_tpm_with_duration(self, subgroup):
            tpm, lab, pdf = self.load_tpm(subgroup)
            return tpm, np.array([[[0., 1.]] * k] * T), lab, pdf, np.array([[0., 1.]] * k)
    listed = STARTS[:3] if 'week' in kind or '7' in kind else STARTS[3:] if 'quart' in kind else STARTS[:1]
    day = ctx.choice('day', listed[:days])
    start = dt.datetime(*day, 4) + dt.timedelta(minutes=10) * (at - T if at else 0)
    kw = {kind: True} if kind != 'none' else {}
    if semi:
        kw['subsimulator'] = A.SemiMarkovSimulator
    groups = [dict(household_type=1, n_residents=1), dict(n_residents=1, hh_mean_age=70)][:people]
    persons = [{}, dict(age=70)]
    sim = A.SubgroupsIndividualsActivitySimulator(groups, [1] * people, data=Data(), start_datetime=start, **kw)
    ctx.check(sim.current_time == start, 'clock at the start')
    now = list(ctx.els(sim.get_n_doing_activity('away')))
    t = start
    for c in range(n):
        sim.step()
        new = ctx.els(sim.get_n_doing_activity('away'))
        day0 = t - dt.timedelta(hours=4)
        i = (day0.hour * 60 + day0.minute) // 10
        for h in range(people):
            swap = table(dict(persons[h], **calendar(ctx, kind, day0)))[(i + 1) % T][1]
            ctx.check(new[h] == ctx.ite(swap > .5, 1 - now[h], now[h]), 'the matrix of the current time and day, for the subgroup of the person')
        t = t + dt.timedelta(minutes=10)
        ctx.check(sim.current_time == t, 'clock')
        now = list(new)


@harness(H, 'refused', 'other step sizes and simulators', quick=[dict()])
def refused(ctx):
    A = ctx.mod('simulators.activity_simulators')
    S = A.SubgroupsIndividualsActivitySimulator
    g = [dict(household_type=1, n_residents=1)]
    s = ctx.int('s', 1, 86400)
    ctx.assume(s != 600)
    ctx.check(ctx.raises(lambda: S(g, [1], data=fake(ctx), step_size=ctx.dt.timedelta(seconds=s)), ValueError)[0], 'another step size')
    ok = S(g, [1], data=fake(ctx), step_size=ctx.dt.timedelta(seconds=600))
    ctx.check(ok.step_size == ctx.dt.timedelta(minutes=10), 'ten minutes')
    ctx.check(ctx.raises(lambda: S(g, [1], data=fake(ctx), subsimulator=dict), TypeError)[0], 'an unknown simulator')
