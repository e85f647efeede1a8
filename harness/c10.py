"""Semi-Markov states last exactly their sampled duration."""
from symx.run import harness
from harness.c09 import lookup, nest, states_of

H = []
NOT_COVERED = ['more states, times, durations, subjects or steps than configured', 'the reading of the matrices from data files',
               'rounding of floating point inside a cumulated distribution (see C01)']
ASSUMPTIONS = ['a duration of zero steps (the code of transitions that were never observed) lasts one step']
B = ('all matrices and duration distributions of k states, t times and d durations (0..d-1 steps), durations that depend on '
     'the new state (prev=0) or also on the previous one (prev=1), all draws, m subjects, n steps')


def onehot(ctx, v, d):
    return [ctx.ite(v == j, 1.0, 0.0) for j in range(d)]


def atleast1(ctx, v):
    return ctx.ite(v > 1, v, 1)


@harness(H, 'certain', B + '; every distribution of durations is certain but unknown',
         quick=[dict(k=2, t=2, d=4, m=1, n=4, prev=0), dict(k=2, t=2, d=4, m=1, n=4, prev=1), dict(k=3, t=2, d=3, m=1, n=3, prev=1), dict(k=2, t=3, d=3, m=2, n=3, prev=0),
                dict(k=3, t=2, d=3, m=1, n=3, prev=0), dict(k=2, t=2, d=2, m=1, n=4, prev=0), dict(k=2, t=2, d=2, m=1, n=3, prev=1)],
         thorough=[dict(k=2, t=3, d=5, m=1, n=6, prev=1), dict(k=3, t=3, d=4, m=1, n=4, prev=0), dict(k=3, t=2, d=4, m=2, n=3, prev=1), dict(k=2, t=2, d=4, m=3, n=4, prev=0)])
def certain(ctx, k, t, d, m, n, prev, start=0):
    np = ctx.np
    A = ctx.mod('simulators.activity_simulators')
    tpm = ctx.pdfs('p', (t, k, k))
    tab = nest(ctx, tpm)
    pdf = np.array(ctx.pdf('init', k))
    first = [ctx.int('first_%d' % i, 0, d - 1) for i in range(k)]
    if prev:
        dur = [[[ctx.int('d_%d_%d_%d' % (i, a, b), 0, d - 1) for b in range(k)] for a in range(k)] for i in range(t)]
        dp = np.array([[[onehot(ctx, v, d) for v in r] for r in q] for q in dur])
    else:
        dur = [[ctx.int('d_%d_%d' % (i, b), 0, d - 1) for b in range(k)] for i in range(t)]
        dp = np.array([[onehot(ctx, v, d) for v in q] for q in dur])
    seen = []

    class Sim(A.SemiMarkovSimulator):
        def step(self):
            seen.append(states_of(ctx, self))
            super().step()
    sim = Sim(m, k, tpm, dp)
    keep = [np.array(x) for x in (tpm, dp)]
    sim.initialize_starting_state(pdf, np.array([onehot(ctx, v, d) for v in first]), start_time_step=start)
    for _ in range(n - start):
        sim.step()
    seen.append(states_of(ctx, sim))
    ctx.check(sim.current_time_step == n, 'counter')
    now = seen[0]
    for s in now:
        ctx.check(ctx.And(s >= 0, s < k), 'a valid state')
        ctx.check(lookup(ctx, ctx.els(pdf), s) > 0, 'a possible initial state')
    left = [atleast1(ctx, lookup(ctx, first, s)) for s in now]
    for c in range(n):
        new = seen[c + 1]
        at = (c + 1) % t
        ctx.check(len(new) == m, 'a state per subject')
        for i in range(m):
            a, b = now[i], new[i]
            due = left[i] == 1
            ctx.check(ctx.And(b >= 0, b < k), 'a valid state')
            ctx.check(ctx.Or(due, a == b), 'a state is kept until its duration has elapsed')
            ctx.check(ctx.Implies(due, lookup(ctx, tab[at], a, b) > 0), 'then a possible transition of the current time')
            ctx.cover(due, 'change due at %d' % c)
            new_d = lookup(ctx, dur[at], a, b) if prev else lookup(ctx, dur[at], b)
            left[i] = ctx.ite(due, atleast1(ctx, new_d), left[i] - 1)
        now = new
    ctx.check(ctx.And(ctx.eq(tpm, keep[0]), ctx.eq(dp, keep[1])), 'data unaltered')


@harness(H, 'start_later', B + '; some steps before the start', quick=[dict(k=2, t=2, d=3, m=1, n=4, prev=0, start=2)],
         thorough=[dict(k=2, t=2, d=4, m=1, n=4, prev=1, start=3)])
def start_later(ctx, **kw):
    certain(ctx, **kw)


def off(ctx, name, k):
    """k rows without transitions to the same state."""
    rows = []
    for a in range(k):
        p = ctx.pdf('%s_%d' % (name, a), k - 1) if k > 2 else [1.0]
        rows.append(p[:a] + [0.0] + p[a:])
    return rows


@harness(H, 'possible', B + '; no transitions to the same state, so every change is visible',
         quick=[dict(k=2, t=2, d=3, n=3, prev=0), dict(k=2, t=2, d=3, n=3, prev=1), dict(k=3, t=1, d=3, n=2, prev=1)],
         thorough=[dict(k=2, t=3, d=4, n=4, prev=1), dict(k=3, t=2, d=3, n=4, prev=0)])
def possible(ctx, k, t, d, n, prev):
    """Runs of a state have a length of positive probability."""
    np = ctx.np
    A = ctx.mod('simulators.activity_simulators')
    tab = [off(ctx, 'p%d' % i, k) for i in range(t)]
    pdf = ctx.pdf('init', k)
    first = [ctx.pdf('first_%d' % i, d) for i in range(k)]
    dp = ctx.pdfs('d', (t, k, k, d) if prev else (t, k, d))
    dtab = nest(ctx, dp)
    sim = A.SemiMarkovSimulator(1, k, np.array(tab), dp)
    sim.initialize_starting_state(np.array(pdf), np.array(first))
    seen = [states_of(ctx, sim)[0]]
    for c in range(n):
        sim.step()
        seen.append(states_of(ctx, sim)[0])
    for c in range(n):
        a, b = seen[c], seen[c + 1]
        ctx.check(ctx.Or(a == b, lookup(ctx, tab[(c + 1) % t], a, b) > 0), 'a possible transition of the current time')
    for s in range(n):
        starts = True if s == 0 else seen[s - 1] != seen[s]
        for e in range(s + 1, n + 1):
            run = ctx.And(starts, *[seen[s] == seen[j] for j in range(s + 1, e)])
            ended = ctx.And(run, seen[e] != seen[e - 1])

            def prob(j):
                if s == 0:
                    return lookup(ctx, [first[x][j] for x in range(k)], seen[0])
                if prev:
                    return lookup(ctx, [[dtab[s % t][x][y][j] for y in range(k)] for x in range(k)], seen[s - 1], seen[s])
                return lookup(ctx, [dtab[s % t][x][j] for x in range(k)], seen[s])
            length = e - s
            ok = ctx.Or(*([prob(length) > 0] if length < d else []), *([prob(0) > 0] if length == 1 else []))
            ctx.check(ctx.Implies(ended, ok), 'a duration of positive probability')
            going = ctx.And(run, seen[e] == seen[e - 1])
            ctx.check(ctx.Implies(going, ctx.Or(*[prob(j) > 0 for j in range(length + 1, d)]) if length + 1 < d else False),
                      'kept only if a longer duration is possible')
            if length + 1 < d:
                ctx.cover(going, 'kept %d' % length)


@harness(H, 'refused', 'wrong sizes and invalid distributions', quick=[dict()])
def refused(ctx):
    np = ctx.np
    A = ctx.mod('simulators.activity_simulators')
    q = [ctx.real('q%d' % i, 0, 2) for i in range(2)]
    ctx.assume(ctx.Or(q[0] + q[1] > 1.001, q[0] + q[1] < 0.999))
    p = np.array([[[0., 1.], [1., 0.]]])
    init, first = np.array([.5, .5]), np.array([[.5, .5], [1., 0.]])
    for d in (np.array([[[1., 0.], q]]), np.array([[[[1., 0.], q], [[1., 0.], [1., 0.]]]])):
        s = A.SemiMarkovSimulator(1, 2, p, d)
        ctx.check(ctx.raises(lambda: s.initialize_starting_state(init, first), ValueError)[0], 'invalid distribution of durations')
    s = A.SemiMarkovSimulator(1, 2, p, np.ones((1, 3, 1)))
    ctx.check(ctx.raises(lambda: s.initialize_starting_state(init, first), ValueError)[0], 'wrong number of states')
