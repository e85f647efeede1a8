"""Subgroups are named, ordered and dated consistently."""
from symx.run import harness

H = []
NOT_COVERED = ['attribute names and texts outside those configured', 'comparing values of different types under one '
               'attribute', 'households whose type contradicts their number of residents']


@harness(H, 'names', 'pairs of subgroups over k attributes, values whole numbers of one or two digits or lists of them',
         quick=[dict(k=2)], thorough=[dict(k=3)], max_paths=400000)
def names(ctx, k):
    sh = ctx.mod('utils.subgroup_handling')
    attrs = ['n_residents', 'weekday', 'age'][:k]
    vals = [None, 1, 11, [1], [1, 1], [11, 1]] if k < 3 else [None, 1, 11, [1, 1]]

    def make(tag, cls):
        items = []
        for a in attrs:
            v = ctx.choice(tag + a, vals)
            if v is not None:
                items.append((a, v))
        return cls(items), cls(reversed(items))
    a, ra = make('a', dict)
    b, _ = make('b', sh.Subgroup)
    na, nb = sh.subgroup_string(a), sh.subgroup_string(b)
    ctx.check(isinstance(na, str), 'a text')
    ctx.check(na == sh.subgroup_string(ra), 'order of the attributes does not matter')
    same = dict(a) == dict(b) and [type(v) for _, v in sorted(a.items())] == [type(v) for _, v in sorted(b.items())]
    listed = any(isinstance(v, list) and len(v) == 1 for g in (a, b) for v in g.values())
    if not listed:          # a list of one value reads like the value
        ctx.check((na == nb) == same, 'different subgroups have different names')
    ctx.check(list(sh.sort_subgroup(a)) == sorted(a), 'sorted')


def group(ctx, sh, tag, attrs):
    g = sh.Subgroup()
    for a in attrs:
        if bool(ctx.bool('has_%s_%s' % (tag, a))):
            g[a] = ctx.int('v_%s_%s' % (tag, a), 0, 50)
    return g


@harness(H, 'order', 'three subgroups over k attributes, all whole values', quick=[dict(k=2)], thorough=[dict(k=3)], max_paths=10**6)
def order(ctx, k):
    sh = ctx.mod('utils.subgroup_handling')
    attrs = ['age', 'n_residents', 'weekday'][:k]
    a, b, c = [group(ctx, sh, t, attrs) for t in 'abc']

    def same(x, y):
        return len(x) == len(y) and all(i in y for i in x) and all(bool(x[i] == y[i]) for i in x)
    gt, lt = bool(a > b), bool(a < b)
    ctx.check(not (a > a) and not (a < a), 'not before itself')
    ctx.check(not (gt and lt), 'not before and after')
    ctx.check((gt or lt) != same(a, b), 'either equal or one comes first')
    ctx.check(bool(b > a) == lt and bool(b < a) == gt, 'both directions agree')
    bc = bool(b > c)
    if gt and bc:
        ctx.check(bool(a > c), 'transitive')
    if lt and bool(b < c):
        ctx.check(bool(a < c), 'transitive')
    d = a.copy()
    ctx.check(type(d) is sh.Subgroup and same(a, d) and not (a > d) and not (d > a), 'a copy is an equal subgroup')
    d['extra'] = 1
    ctx.check('extra' not in a, 'a copy is independent')
    ctx.check(ctx.raises(lambda: a > 3, TypeError)[0], 'only compared to subgroups')


@harness(H, 'lists', 'pairs of subgroups with lists of days', quick=[dict()])
def lists(ctx):
    sh = ctx.mod('utils.subgroup_handling')
    days = [[1, 2, 3, 4, 5], [6, 7]]
    a = sh.Subgroup(weekday=ctx.choice('a', days), n=ctx.int('x', 0, 3))
    b = sh.Subgroup(n=ctx.int('y', 0, 3), weekday=ctx.choice('b', days))
    eq = a['weekday'] == b['weekday'] and bool(a['n'] == b['n'])
    ctx.check(int(bool(a > b)) + int(bool(b > a)) == (0 if eq else 1), 'exactly one is first unless equal')


@harness(H, 'grouping', 'n subgroups over two attributes, all whole values', quick=[dict(n=3)], thorough=[dict(n=4)], max_paths=400000)
def grouping(ctx, n):
    """numpy groups the equal ones together."""
    import numpy
    sh = ctx.mod('utils.subgroup_handling')
    gs = []
    for i in range(n):
        g = sh.Subgroup(age=ctx.int('a%d' % i, 0, 2))
        if bool(ctx.bool('h%d' % i)):
            g['n_residents'] = ctx.int('n%d' % i, 0, 2)
        gs.append({k: int(v) for k, v in g.items()})
    gs = [sh.Subgroup(g) for g in gs]
    arr = numpy.empty(n, dtype=object)
    for i, g in enumerate(gs):
        arr[i] = g
    u, inv, cnt = numpy.unique(arr, return_inverse=True, return_counts=True)
    distinct = []
    for g in gs:
        if dict(g) not in distinct:
            distinct.append(dict(g))
    ctx.check(len(u) == len(distinct), 'one group per different subgroup')
    ctx.check(all(dict(u[i]) == dict(g) for i, g in zip(inv, gs)), 'every subgroup is in its own group')
    ctx.check(int(sum(cnt)) == n, 'counted once')


@harness(H, 'dated', 'all dates and times from 1999 to 2031', quick=[dict()])
def dated(ctx):
    sh = ctx.mod('utils.subgroup_handling')
    d = ctx.datetime('d')
    if bool(ctx.bool('only_date')):
        d = d.date()
    flags = ['use_week_ends_days', 'use_week_sat_sun', 'use_7days']
    default = bool(ctx.bool('default'))
    kw = {} if default else {f: bool(ctx.bool(f)) for f in flags}
    kw['use_quarters'] = bool(ctx.bool('q'))
    g = {'test': 3, 'age': ctx.int('age', 0, 99)}
    if bool(ctx.bool('dated_before')):
        g.update(weekday=9, quarter=9)
    before = dict(g)
    many = sum(kw.get(f, False) for f in flags) > 1
    raised, out = ctx.raises(lambda: sh.add_time(g, d, **kw), ValueError)
    ctx.check(raised == many, 'only one division of the week')
    if raised:
        return
    day = (d.toordinal() - 1) % 7 + 1
    ctx.check(out['test'] == 3 and bool(ctx.eq(out['age'], before['age'])), 'other attributes kept')
    names = {'test', 'age'}
    if default or kw['use_week_ends_days']:
        names.add('weekday')
        work = out['weekday'] == [1, 2, 3, 4, 5]
        ctx.check(work or out['weekday'] == [6, 7], 'working day or weekend')
        ctx.check(ctx.Iff(work, day <= 5), 'working days are Monday to Friday')
        sh.check_weekend_day_format(out)
        ctx.check(sh.is_weekday(out) == work and sh.is_weekend(out) == (not work), 'recognised as such')
    elif kw['use_week_sat_sun']:
        names.add('weekday')
        if isinstance(out['weekday'], list):
            ctx.check(ctx.And(out['weekday'] == [1, 2, 3, 4, 5], day <= 5), 'working day')
        else:
            ctx.check(ctx.And(day > 5, ctx.eq(out['weekday'], day)), 'Saturday or Sunday')
    elif kw['use_7days']:
        names.add('weekday')
        ctx.check(ctx.eq(out['weekday'], day), 'day of the week')
    if kw['use_quarters']:
        names.add('quarter')
        q = out['quarter']
        ctx.check(ctx.And(q >= 1, q <= 4, d.month > 3 * (q - 1), d.month <= 3 * q), 'quarter of the date')
    ctx.check(set(out) == names, 'no other attributes')
    ctx.check(out is g, 'the given subgroup is the one dated')
    bare = sh.remove_time_attributues(sh.Subgroup(out))
    ctx.check(set(bare) == {'test', 'age'} and bool(ctx.eq(bare['age'], before['age'])), 'removing the time leaves the rest')
    ctx.check(set(out) == names, 'the dated subgroup is not changed by it')


@harness(H, 'persons', 'every household type and number of residents up to top', quick=[dict(top=6)], thorough=[dict(top=9)])
def persons(ctx, top):
    sh = ctx.mod('utils.subgroup_handling')
    t = ctx.choice('type', [None, 1, 2, 3, 4, 5])
    least = {None: 1, 1: 1, 2: 2, 3: 2, 4: 3, 5: 2}[t]
    n = int(ctx.int('n', least, {1: 1, 2: 2}.get(t, top)))
    hh = {'quarter': ctx.int('q', 1, 4)}
    if t is not None:
        hh['household_type'] = t
    if t not in (1, 2) or bool(ctx.bool('number_given')):
        hh['n_residents'] = n
    age = ctx.choice('age', [None, 'age', 'hh_mean_age', 'both'])
    if age in ('age', 'both'):
        hh['age'] = ctx.int('a', 0, 99)
    if age in ('hh_mean_age', 'both'):
        hh['hh_mean_age'] = ctx.int('m', 0, 99)
    before = dict(hh)
    if bool(ctx.bool('sub')):
        hh = sh.Subgroup(hh)
    out = sh.subgroup_households_to_persons(hh)
    ctx.check(len(out) == n, 'one person per resident')
    ctx.check(dict(hh) == before or all(bool(ctx.eq(hh[k], before[k])) for k in before), 'household unaltered')
    ctx.check(set(hh) == set(before), 'household unaltered')
    for p in out:
        ctx.check(isinstance(p, sh.Subgroup), 'a subgroup')
        ctx.check('n_residents' not in p and 'household_type' not in p, 'attributes of a person')
        ctx.check(ctx.eq(p['quarter'], before['quarter']), 'same quarter')
        if 'age' in before:
            ctx.check(ctx.eq(p['age'], before['age']), 'age kept')
        elif n == 1 and 'hh_mean_age' in before:
            ctx.check(ctx.eq(p['age'], before['hh_mean_age']), 'a single person has the mean age')
    pos = sorted(p.get('household_position', 0) for p in out)
    if n > 1:
        ctx.check(pos == {2: [1, 2], 3: [1] + [3] * (n - 1), 4: [1, 2] + [3] * (n - 2)}.get(t, [0] * n), 'positions in the household')
    many = sh.subgroup_households_to_persons([hh, hh, {'n_residents': 1}])
    ctx.check([len(m) for m in many] == [n, n, 1], 'household by household')
