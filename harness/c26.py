"""Estimated transition and duration distributions match the observations."""
from symx.run import harness
from harness.c25 import runs

H = []
NOT_COVERED = ['more patterns, times and states than configured', 'the sparse estimation of GermanTOU (its module reads raw '
               'survey files when imported)', 'patterns with missing observations', 'rounding of floating point']
B = 'all patterns of n subjects, t times and states 0..k-1'
Q = [dict(n=2, t=2, k=2), dict(n=1, t=3, k=2)]
T = [dict(n=2, t=3, k=2), dict(n=3, t=2, k=2), dict(n=1, t=4, k=3)]


def patterns(ctx, n, t, k):
    s = ctx.ints('s', (n, t), 0, k - 1)
    return [list(ctx.els(r)) for r in ctx.np.array(s)], s


def count(ctx, conds):
    return ctx.sum([ctx.ite(ctx.And(*c), 1, 0) for c in conds] + [0])


def rows_ok(ctx, m, what):
    for r in m.reshape((-1, m.shape[-1])):
        e = ctx.els(r)
        ctx.check(ctx.And(ctx.close(ctx.sum(e), 1.), *[x >= 0 for x in e]), what)


@harness(H, 'tpms', B, quick=Q, thorough=T, max_paths=10**6)
def tpms(ctx, n, t, k):
    np = ctx.np
    ph = ctx.mod('utils.parse_helpers')
    rows, s = patterns(ctx, n, t, k)
    s0 = np.array(s)
    algo = ctx.choice('algo', ['default', 'last', 'nothing'])
    labels = bool(ctx.bool('labels'))
    if not labels:
        ctx.assume(ctx.Or(*[v == k - 1 for r in rows for v in r]))
    kw = {} if algo == 'default' else {'first_tpm_modification_algo': algo}
    out = ph.states_to_tpms(s, labels=['l%d' % i for i in range(k)] if labels else None, **kw)
    ctx.check(tuple(out.shape) == (t, k, k), 'a matrix per time')
    rows_ok(ctx, out, 'rows are distributions')
    for i in range(t):
        at = t - 1 if i == 0 and algo != 'nothing' else i
        for a in range(k):
            tot = count(ctx, [[r[at - 1] == a] for r in rows])
            for b in range(k):
                obs = count(ctx, [[r[at - 1] == a, r[at] == b] for r in rows])
                ctx.check(ctx.ite(tot == 0, ctx.close(out[i, a, b], 1. if a == b else 0.),
                                  ctx.close(out[i, a, b] * tot, obs)), 'observed frequencies; unobserved states stay')
    ctx.check(ctx.eq(s, s0), 'patterns unaltered')


@harness(H, 'algo', 'any other name', quick=[dict()])
def algo(ctx):
    np = ctx.np
    ph = ctx.mod('utils.parse_helpers')
    ctx.check(ctx.raises(lambda: ph.first_tpm_change(ctx.reals('y', (2, 2, 2)), 'other'), TypeError)[0], 'unknown algorithms are refused')
    x = ctx.reals('x', (3, 2, 2))
    x0 = np.array(x)
    ctx.check(ctx.eq(ph.first_tpm_change(x, 'nothing'), x0), 'nothing changes')
    out = ph.first_tpm_change(x, 'last')
    ctx.check(ctx.And(ctx.eq(out[0], x0[-1]), ctx.eq(out[1:], x0[1:])), 'the first is the last one, others as before')


@harness(H, 'counts', 'all counts', quick=[dict(shape=[3]), dict(shape=[2, 3])], thorough=[dict(shape=[2, 2, 3]), dict(shape=[3, 4])])
def counts(ctx, shape):
    np = ctx.np
    ph = ctx.mod('utils.parse_helpers')
    c = ctx.reals('c', shape, 0, 1000) if bool(ctx.bool('real')) else ctx.ints('c', shape, 0, 1000)
    c0 = np.array(c)
    if len(shape) == 1:
        c, c0 = c[None], c0[None]
    out = ph.counts_to_pdf(c)
    ctx.check(tuple(out.shape) == tuple(c0.shape), 'shape kept')
    rows_ok(ctx, out, 'rows are distributions')
    n = shape[-1]
    for r, o in zip(c0.reshape((-1, n)), out.reshape((-1, n))):
        tot = ctx.sum(ctx.els(r))
        for j in range(n):
            ctx.check(ctx.ite(tot == 0, ctx.close(o[j], 1. if j == 0 else 0.), ctx.close(o[j] * tot, r[j], tol=1e-4)),
                      'frequencies; nothing counted is the first value')


@harness(H, 'initial', B, quick=[dict(n=2, t=3, k=2)], thorough=[dict(n=3, t=3, k=2), dict(n=2, t=3, k=3)], max_paths=10**6)
def initial(ctx, n, t, k):
    """How long the first state lasts."""
    np = ctx.np
    ph = ctx.mod('utils.parse_helpers')
    rows, s = patterns(ctx, n, t, k)
    for v in range(k):
        ctx.assume(ctx.Or(*[x == v for r in rows for x in r]))
    s0 = np.array(s)
    out = ph.get_initial_durations_pdfs(s)
    ctx.check(tuple(out.shape) == (k, t + 1), 'a distribution per state')
    rows_ok(ctx, out, 'rows are distributions')
    for v in range(k):
        tot = count(ctx, [[r[0] == v] for r in rows])
        for d in range(t + 1):
            obs = count(ctx, [[r[0] == v] + [r[j] == v for j in range(1, d)] + ([r[d] != v] if d < t else [])
                              for r in rows]) if d else 0
            ctx.check(ctx.ite(tot == 0, ctx.close(out[v, d], 1. if d == 0 else 0.), ctx.close(out[v, d] * tot, obs)),
                      'observed durations of the first state')
    ctx.check(ctx.eq(s, s0), 'patterns unaltered')


@harness(H, 'with_durations', B, quick=[dict(n=1, t=3, k=2), dict(n=2, t=2, k=2)], thorough=[dict(n=2, t=3, k=2), dict(n=1, t=4, k=2), dict(n=1, t=3, k=3)],
         max_paths=10**6)
def with_durations(ctx, n, t, k):
    """Matrices of the changes and distributions of how long they last."""
    np = ctx.np
    ph = ctx.mod('utils.parse_helpers')
    rows, s = patterns(ctx, n, t, k)
    s0 = np.array(s)
    ignore = bool(ctx.bool('ignore'))
    algo = ctx.choice('algo', ['last', 'nothing'])
    labels = bool(ctx.bool('labels'))
    if not labels:
        for v in range(k):
            ctx.assume(ctx.Or(*[x == v for r in rows for x in r]))
    tpm, dur, durp = ph.states_to_tpms_with_durations(
        s, first_tpm_modification_algo=algo, labels=list(range(k)) if labels else None, ignore_end_start_transitions=ignore)
    ctx.check((tuple(tpm.shape), tuple(dur.shape), tuple(durp.shape)) ==
              ((t, k, k), (t, k, t + 1), (t, k, k, t + 1)), 'one distribution per time and state')
    for m in (tpm, dur, durp):
        rows_ok(ctx, m, 'rows are distributions')
    # every change: time, subject, duration of the new state (0: cut by the end)
    ch = []
    still = []
    for r in rows:
        run = runs(r)
        if len(run) == 1 and run[0][2] == t and not any(bool(r[i] != r[i - 1]) for i in range(t)):
            still.append(r[0])
            continue
        last = max(a for a, _, _ in run)
        cut = ignore and bool(r[0] != r[-1])
        for a, _, ln in run:
            if a == 0 and ignore:
                continue
            ch.append((a, r[a - 1], r[a], 0 if cut and a == last else ln))
    for i in range(t):
        at = t - 1 if i == 0 and algo == 'last' else i
        here = [c for c in ch if c[0] == at]
        for a in range(k):
            stay = count(ctx, [[x == a] for x in still]) if i == 0 else 0
            tot = count(ctx, [[c[1] == a] for c in here]) + stay
            into = count(ctx, [[c[2] == a] for c in here]) + stay
            for b in range(k):
                obs = count(ctx, [[c[1] == a, c[2] == b] for c in here]) + (stay if a == b else 0)
                ctx.check(ctx.ite(tot == 0, ctx.close(tpm[i, a, b], 1. if a == b else 0.), ctx.close(tpm[i, a, b] * tot, obs)),
                          'observed changes; unobserved states stay')
                for d in range(t + 1):
                    od = count(ctx, [[c[1] == a, c[2] == b] for c in here if c[3] == d]) + (stay if a == b and d == t else 0)
                    ctx.check(ctx.ite(obs == 0, ctx.close(durp[i, a, b, d], 1. if d == 0 else 0.),
                                      ctx.close(durp[i, a, b, d] * obs, od)), 'durations after each change')
            for d in range(t + 1):
                od = count(ctx, [[c[2] == a] for c in here if c[3] == d]) + (stay if d == t else 0)
                ctx.check(ctx.ite(into == 0, ctx.close(dur[i, a, d], 1. if d == 0 else 0.),
                                  ctx.close(dur[i, a, d] * into, od)), 'durations of each state')
    ctx.check(ctx.eq(s, s0), 'patterns unaltered')
