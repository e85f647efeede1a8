"""State durations partition the observed time."""
from symx.run import harness

H = []
NOT_COVERED = ['more patterns and times than configured', 'patterns with missing (nan) observations']
B = 'all patterns of n subjects and t times, the states being any whole numbers'
Q = [dict(n=2, t=3), dict(n=1, t=5), dict(n=3, t=2), dict(n=4, t=2)]
T = [dict(n=2, t=4), dict(n=1, t=7), dict(n=3, t=3)]
TOP = 10**6


def patterns(ctx, n, t, top=TOP):
    s = ctx.ints('s', (n, t), -top if top == TOP else 0, top)
    return [list(ctx.els(r)) for r in ctx.np.array(s)], s


def runs(row):
    """(start, state, length) of every maximal run of the cycle; a pattern that
    never changes is one run."""
    t = len(row)
    starts = [i for i in range(t) if bool(row[i] != row[i - 1])]
    if not starts:
        return [(0, row[0], t)]
    return [(a, row[a], (b - a) % t or t) for a, b in zip(starts, starts[1:] + starts[:1])]


def same_items(ctx, got, exp):
    """Equal as collections, whatever the order."""
    if len(got) != len(exp):
        return False

    def n(items, x):
        return ctx.sum([ctx.ite(ctx.And(*[ctx.eq(a, b) for a, b in zip(x, y)]), 1, 0) for y in items])
    return ctx.And(True, *[n(got, x) == n(exp, x) for x in exp])


def table(ctx, out, keys):
    cols = [ctx.els(out[q]) for q in keys]
    assert len({len(c) for c in cols}) == 1
    return list(zip(*cols))


@harness(H, 'durations', B, quick=Q, thorough=T, max_paths=10**6)
def durations(ctx, n, t):
    np = ctx.np
    m = ctx.mod('metrics.states')
    rows, s = patterns(ctx, n, t)
    s0 = np.array(s)
    d, lab = m.get_states_durations(s)
    got = list(zip(ctx.els(lab), ctx.els(d)))
    exp = [(st, ln) for r in rows for _, st, ln in runs(r)]
    ctx.check(len(ctx.els(lab)) == len(ctx.els(d)), 'a label per duration')
    ctx.check(ctx.And(*[x > 0 for _, x in got]), 'positive')
    ctx.check(ctx.sum([x for _, x in got]) == n * t, 'add up to the time observed')
    ctx.check(same_items(ctx, got, exp), 'one duration per run, labelled with its state')
    ctx.check(ctx.eq(s, s0), 'patterns unaltered')


@harness(H, 'grouped', B + ' from zero to k', quick=[dict(n=1, t=4, k=2), dict(n=2, t=2, k=3)],
         thorough=[dict(n=1, t=5, k=4), dict(n=2, t=3, k=3)], max_paths=10**6)
def grouped(ctx, n, t, k):
    m = ctx.mod('metrics.states')
    rows, s = patterns(ctx, n, t, k)
    exp = [(st, ln) for r in rows for _, st, ln in runs(r)]
    by = m.get_durations_by_states(s)
    got = [(st, x) for st in by for x in ctx.els(by[st])]
    ctx.check(same_items(ctx, got, exp), 'grouping by state neither loses nor adds')
    keys = list(by)
    ctx.check(ctx.And(True, *[a != b for i, a in enumerate(keys) for b in keys[:i]]), 'one group per state')
    cnt = m.count(s)
    vals = [v for r in rows for v in r]
    for v, c in cnt:
        ctx.check(ctx.eq(c, ctx.sum([ctx.ite(x == v, 1, 0) for x in vals])), 'every value counted')
    ctx.check(ctx.sum([c for _, c in cnt]) == n * t, 'nothing left out')


@harness(H, 'one_subject', B + '; the durations of each subject', quick=[dict(t=4)], thorough=[dict(t=7)], max_paths=10**6)
def one_subject(ctx, t):
    """Per subject: its own durations, whoever else is in the same data."""
    np = ctx.np
    m = ctx.mod('metrics.states')
    rows, s = patterns(ctx, 1, t)
    other = np.array([[TOP + 1] * (t - 1) + [TOP + 2], [TOP + 3] * t])
    d, lab = m.get_states_durations(np.concatenate((other[:1], s, other[1:])))
    got = [(a, b) for a, b in zip(ctx.els(lab), ctx.els(d)) if bool(a <= TOP)]
    ctx.check(same_items(ctx, got, [(st, ln) for _, st, ln in runs(rows[0])]), 'durations of the subject')
    ctx.check(ctx.sum([b for _, b in got]) == t, 'add up to its time')


@harness(H, 'transitions', B, quick=Q, thorough=T, max_paths=10**6)
def transitions(ctx, n, t):
    np = ctx.np
    ph = ctx.mod('utils.parse_helpers')
    rows, s = patterns(ctx, n, t)
    s0 = np.array(s)
    skip = bool(ctx.bool('skip'))
    dur = bool(ctx.bool('dur'))
    out = ph.states_to_transitions(s, return_duration=dur, ignore_end_start_transitions=skip)
    got = table(ctx, out, ['times', 'persons', 'old_states', 'new_states'])
    exp = [(i, p, rows[p][i - 1], rows[p][i]) for i in range(1 if skip else 0, t) for p in range(n)
           if bool(rows[p][i] != rows[p][i - 1])]
    ctx.check(same_items(ctx, got, exp), 'exactly the changes of state')
    ctx.check(ctx.eq(s, s0), 'patterns unaltered')
    ctx.check(('durations' in out) == dur, 'durations if asked for')
    if dur:
        ctx.check(len(out['durations']) == len(got), 'one duration per transition')
        for (i, p, _, _), d in zip(got, ctx.els(out['durations'])):
            i, p = int(i), int(p)
            ends = skip and bool(rows[p][0] != rows[p][-1])
            run = {a: ln for a, _, ln in runs(rows[p])}
            if ends and all(int(q[0]) <= i for q in got if int(q[1]) == p):
                # cut by the end of the pattern: left out (0) or counted up to the end
                ctx.check(ctx.Or(d == 0, d == t - i), 'a cut state lasts no longer than observed')
                continue
            ctx.check(d == run[i], 'how long the new state lasts')


@harness(H, 'all_steps', B, quick=Q, thorough=T, max_paths=10**6)
def all_steps(ctx, n, t):
    """Same state included: every subject at every time."""
    ph = ctx.mod('utils.parse_helpers')
    rows, s = patterns(ctx, n, t)
    skip = bool(ctx.bool('skip'))
    out = ph.states_to_transitions(s, include_same_state=True, ignore_end_start_transitions=skip)
    got = table(ctx, out, ['times', 'persons', 'old_states', 'new_states'])
    exp = [(i, p, rows[p][0] if i == 0 and skip else rows[p][i - 1], rows[p][i]) for i in range(t) for p in range(n)]
    ctx.check(same_items(ctx, got, exp), 'every step of every subject')


NAMES = ['away', 'home', 'sleep']


@harness(H, 'named', 'all patterns of t times over three named states', quick=[dict(t=4)], thorough=[dict(t=6)])
def named(ctx, t):
    """States may be names."""
    np = ctx.np
    row = [ctx.choice('n%d' % i, NAMES) for i in range(t)]
    s = np.array([row, ['home'] * t])
    m, ph = ctx.mod('metrics.states'), ctx.mod('utils.parse_helpers')
    d, lab = m.get_states_durations(s)
    exp = sorted((st, ln) for r in (row, ['home'] * t) for _, st, ln in runs(r))
    ctx.check(sorted((str(a), int(b)) for a, b in zip(ctx.els(lab), ctx.els(d))) == exp, 'one duration per run')
    out = ph.states_to_transitions(s)
    got = sorted((int(i), int(p), str(a), str(b)) for i, p, a, b in table(ctx, out, ['times', 'persons', 'old_states', 'new_states']))
    ctx.check(got == [(i, 0, row[i - 1], row[i]) for i in range(t) if row[i] != row[i - 1]], 'exactly the changes')


@harness(H, 'households', B + '; subjects spread over households and days', quick=[dict(n=2, t=2, k=1)],
         thorough=[dict(n=2, t=3, k=2), dict(n=3, t=2, k=2)], max_paths=10**6)
def households(ctx, n, t, k):
    """Transitions of the same kind in a household are counted together."""
    np = ctx.np
    ph = ctx.mod('utils.parse_helpers')
    rows, s = patterns(ctx, n, t, k)
    hh, day = ctx.ints('h', n, 0, 9), ctx.ints('d', n, 1, 2)
    out = ph.group_hh_transitions(s, hh, day)
    got = table(ctx, out, ['times', 'households', 'day_nrs', 'old_states', 'new_states', 'counts'])
    kinds = [(i, hh[p], day[p], rows[p][i - 1], rows[p][i]) for p in range(n) for i in range(t)
             if bool(rows[p][i] != rows[p][i - 1])]
    for g in got:
        ctx.check(g[5] == ctx.sum([ctx.ite(ctx.And(*[ctx.eq(a, b) for a, b in zip(g, x)]), 1, 0) for x in kinds]),
                  'how many of the household do it')
    ctx.check(ctx.sum([g[5] for g in got] + [0]) == len(kinds), 'every change counted once')
