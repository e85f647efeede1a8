"""Ownership and targets are looked up per appliance without loss."""
from symx.run import harness

H = []
NOT_COVERED = ['appliance names outside the families configured', 'more appliances than configured']
NAMES = ['hob', 'electric_hob', 'fast_electric_hob', 'tv', 'lamp']
KEYS = ['hob', 'electric_hob', 'tv']


def closest(name, table):
    """Longest ending of the name, cut at underscores, that is in the table."""
    parts = name.split('_')
    for i in range(len(parts)):
        n = '_'.join(parts[i:])
        if n in table:
            return n
    return None


@harness(H, 'lookup', 'all tables of probabilities and targets; every list of n appliances of five nested types; tables '
         'holding up to m entries per type', quick=[dict(n=2, m=2), dict(n=3, m=1)], thorough=[dict(n=3, m=2), dict(n=4, m=3)],
         max_paths=400000)
def lookup(ctx, n, m):
    np = ctx.np
    ap = ctx.mod('utils.appliances')
    types = [ctx.choice('t%d' % i, NAMES) for i in range(n)]
    table = {}
    for k in KEYS:
        for j in range(1, int(ctx.int('m_' + k, 0, m)) + 1):
            table[k if j == 1 else '%s_%d' % (k, j)] = ctx.real('v_%s%d' % (k, j), 0, 1)
    default = ctx.reals('d', n, 0, 1)
    d0, t0 = np.array(default), dict(table)
    seen, exp = {}, []
    for i, t in enumerate(types):
        c = closest(t, table)
        if c is None:
            exp.append(d0[i])
            continue
        seen[c] = seen.get(c, 0) + 1
        exp.append(t0.get(c if seen[c] == 1 else '%s_%d' % (c, seen[c]), 0.))
    apps = {'type': types, 'equipped_prob': default, 'target_switchons': default * 2, 'other': default * 3}
    ctx.check(ctx.eq(ap.get_ownership_from_dict(apps, table), np.array(exp)), 'ownership per appliance')
    for key, factor in (('target_switchons', 2), ('other', 3)):
        e2 = [d0[i] * factor if closest(t, t0) is None else exp[i] for i, t in enumerate(types)]
        kw = {} if key == 'target_switchons' else {'default_key': key}
        ctx.check(ctx.eq(ap.get_target_from_dict(apps, table, **kw), np.array(e2)), 'target per appliance')
    for t in types:
        ctx.check(ap.find_closest_type(t, table) == (closest(t, t0) or False), 'closest type')
    ctx.check(list(table) == list(t0) and ctx.And(*[ctx.eq(table[k], t0[k]) for k in t0]), 'table unaltered')
    ctx.check(ctx.eq(default, d0), 'defaults unaltered')


@harness(H, 'split', 'all probabilities and all mean numbers up to top', quick=[dict(top=5)], thorough=[dict(top=20)])
def split(ctx, top):
    ap = ctx.mod('utils.appliances')
    p, n = ctx.real('p', -1, top), ctx.real('n', -1, top)
    bad = ctx.Or(p > n, p < 0, p > 1, n < 0)
    raised, out = ctx.raises(lambda: ap.assign_ownership_from_prob1_and_number(p, n), ValueError)
    ctx.check(ctx.Iff(bad, raised), 'impossible values are refused, all others accepted')
    if raised:
        return
    ctx.check(out[0] == p, 'starts with the probability of owning one')
    ctx.check(ctx.And(*[ctx.And(x >= 0, x <= 1) for x in out]), 'probabilities')
    ctx.check(ctx.close(ctx.sum(out), n), 'adds up to the mean number')
    ctx.check(ctx.And(*[a >= b for a, b in zip(out[1:], out[2:])]), 'never more likely to own a further one')


@harness(H, 'split_unknown', 'all probabilities', quick=[dict()])
def split_unknown(ctx):
    ap = ctx.mod('utils.appliances')
    p = ctx.real('p', 0, 1)
    which = ctx.choice('nan', ['np', 'float', 'element'])
    nan = {'np': ctx.np.nan, 'float': float('nan'), 'element': ctx.np.array([1., float('nan')])[1]}[which]
    out = ap.assign_ownership_from_prob1_and_number(p, nan)
    ctx.check(out[0] == p, 'starts with the probability of owning one')
    ctx.check(ctx.close(ctx.sum(out), p), 'unknown number: at most one is owned')


@harness(H, 'merge', 'all values; two lists of up to n appliances', quick=[dict(n=2)])
def merge(ctx, n):
    """Putting two lists together keeps every appliance of both."""
    np = ctx.np
    ap = ctx.mod('utils.appliances')
    a, b = int(ctx.int('a', 1, n)), int(ctx.int('b', 1, n))
    d1 = {'type': np.array(['hob', 'tv'][:a]), 'p': ctx.reals('p', a), 'number': a, 'only1': ctx.reals('o', a)}
    d2 = {'number': b, 'p': ctx.reals('q', b), 'type': np.array(['lamp', 'hob'][:b]), 'only2': ctx.reals('r', b)}
    out = ap.merge_appliance_dict(d1, d2)
    ctx.check(sorted(out) == ['number', 'p', 'type'], 'quantities known for both')
    ctx.check(out['number'] == a + b, 'numbers add up')
    ctx.check(list(out['type']) == ['hob', 'tv'][:a] + ['lamp', 'hob'][:b], 'types in order')
    ctx.check(ctx.eq(out['p'], np.array(ctx.els(d1['p']) + ctx.els(d2['p']))), 'values in order')


@harness(H, 'owned', 'n subgroups with their own tables of probabilities, households of each, two appliances of one type and one of another',
         quick=[dict(n=2)], thorough=[dict(n=3)])
def owned(ctx, n):
    """A household owns appliances with the probabilities of its own subgroup, or exactly the set defined for it."""
    from harness.c14 import data_of, rows
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    specs = [dict(type='tv', act='x', name='TV1', own=.5), dict(type='hob', act='x', name='HOB', own=.25), dict(type='tv', act='x', name='TV2', own=.5)]
    tabs = [{'tv': ctx.real('tv%d' % i, 0, 1), 'tv_2': ctx.real('tv2_%d' % i, 0, 1), 'hob': ctx.real('hob%d' % i, 0, 1)} for i in range(n)]
    asked = []

    def own(g):
        asked.append(g['n_residents'])
        return tabs[g['n_residents'] - 1]
    data = data_of(ctx, specs, lambda g: {'x': [[1., 1.]] * 144}, own=own)
    groups, sizes = [{'n_residents': i + 1} for i in range(n)], [2, 1, 1][:n]
    k = ctx.n_draws()
    kw = dict(start_datetime=ctx.dt.datetime(2014, 1, 1))
    sim = A.OccupancyApplianceSimulator(groups, sizes, data, **kw)
    got = rows(ctx, sim.available_appliances)
    of = [i for i, s in enumerate(sizes) for _ in range(s)]
    ctx.check(len(got) == sum(sizes), 'every household')
    for h, i in enumerate(of):
        for j, key in enumerate(['tv', 'hob', 'tv_2']):
            p = tabs[i][key]
            ds = [ctx.draw(c) for c in range(k, ctx.n_draws())]
            ctx.check(ctx.Implies(got[h][j], ctx.Or(*[d < p for d in ds])), 'owned with the probability of the subgroup')
            ctx.check(ctx.Implies(ctx.Not(got[h][j]), ctx.Or(*[d >= p for d in ds])), 'not owned otherwise')
            ctx.check(ctx.And(ctx.Implies(p == 0, ctx.Not(got[h][j])), ctx.Implies(p == 1, got[h][j])), 'certain ownership')
    sets = [['TV1', 'TV2'], ['HOB'], []][:n]
    sim = A.OccupancyApplianceSimulator(groups, sizes, data, equipped_sampling_algo='set_defined', equipped_set_defined=sets, **kw)
    exp = [[s['name'] in sets[i] for s in specs] for i in of]
    ctx.check(rows(ctx, sim.available_appliances) == exp, 'exactly the set of the subgroup')


@harness(H, 'starts', 'all yearly targets of two subgroups, any mean share of the activity and numbers of starts per day; an appliance driven by an '
         'activity, two that follow it and one that follows the activity', quick=[dict()])
def starts(ctx):
    """The starts expected with the probabilities of the simulator are the targets."""
    from harness.c14 import data_of, rows
    np = ctx.np
    A = ctx.mod('simulators.appliance_simulators')
    specs = [dict(type='w', act='x', prob=True, dur=30.), dict(type='d', act='x', prob=True, dur=60., prev_type='w'), dict(type='e', act='x', prob=True, dur=60., prev_type='w'),
             dict(type='g', act='y', prob=True, dur=60., prev_act='x')]
    t = [{k: ctx.real('t_%s_%d' % (k, i), 1, 100) for k in 'wdeg'} for i in range(2)]
    share = [ctx.real('share%d' % i, 0, 1) for i in range(2)]
    st = [[ctx.pdf('s%d' % i, 3, positive=True)][0] for i in range(2)]
    data = data_of(ctx, specs, target=lambda g: t[g['n']], prob=lambda g: {a: np.array([share[g['n']], share[g['n']]]) for a in 'xy'},
                   starts=lambda g: {a: np.array(st[g['n']]) for a in 'xy'})
    groups = [{'n': 0, 'n_residents': 3}, {'n': 1}]
    none = {'x': np.array([0, 0, 0]), 'y': np.array([0, 0, 0])}
    sim = A.ProbabiliticActivityAppliancesSimulator(3, none, data=data, subgroups_list=groups, n_households_list=[1, 2], start_datetime=ctx.dt.datetime(2014, 1, 1))
    p = rows(ctx, sim.switch_on_probs)
    year = 365.25 * 24 * 60
    for h, i in enumerate([0, 1, 1]):
        free = year * share[i] - 30 * t[i]['w']
        free = ctx.ite(free < 1, 1, free)
        ctx.check(ctx.close(p[h][0] * free, t[i]['w']), 'driven by an activity: starts in the steps of the activity when it is off')
        for j, k in ((1, 'd'), (2, 'e')):
            ctx.check(ctx.close(p[h][j] * t[i]['w'], t[i][k]), 'follows an appliance: starts when that stops')
        e = ctx.els(st[i])
        mean = e[1] + 2 * e[2]
        ctx.check(ctx.close(p[h][3] * 365.25 * mean * (3 if i == 0 else 2.3), t[i]['g']), 'follows an activity: starts when that stops')
