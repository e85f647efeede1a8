"""Markov simulations only take possible transitions of the current time."""
from symx.run import harness

H = []
NOT_COVERED = ['more states, times, subjects or steps than configured', 'the reading of the matrices from data files',
               'rounding of floating point inside a cumulated distribution (see C01)']
B = 'all matrices and initial distributions of k states and t times (zeros included), all draws, m subjects, n steps'


def lookup(ctx, table, *idx):
    """table[idx] for a nested list and symbolic indices."""
    if not idx:
        return table
    out = lookup(ctx, table[0], *idx[1:])
    for j in range(1, len(table)):
        out = ctx.ite(idx[0] == j, lookup(ctx, table[j], *idx[1:]), out)
    return out


def nest(ctx, a):
    return [nest(ctx, r) for r in a] if len(ctx.shape(a)) > 1 else ctx.els(a)


def sim_of(ctx, k, t, m, labels=None, cls='MarkovChain1rstOrder', name='p', **kw):
    A = ctx.mod('simulators.activity_simulators')
    tpm = ctx.pdfs(name, (t, k, k))
    pdf = ctx.np.array(ctx.pdf(name + '_init', k))
    sim = A.MarkovChain1rstOrder(m, k, tpm, labels=labels, **kw)
    return sim, tpm, pdf


def states_of(ctx, sim):
    return [x + 0 for x in ctx.els(sim.current_states)]


def moved(ctx, tab, at, old, new, k, label='a possible transition of the matrix of the current time'):
    for a, b in zip(old, new):
        ctx.check(ctx.And(b >= 0, b < k), 'a valid state')
        ctx.check(lookup(ctx, tab[at], a, b) > 0, label)


@harness(H, 'steps', B, quick=[dict(k=2, t=2, m=2, n=3), dict(k=3, t=3, m=2, n=4), dict(k=4, t=2, m=1, n=3), dict(k=2, t=5, m=1, n=6), dict(k=2, t=1, m=1, n=2),
                dict(k=4, t=4, m=3, n=6), dict(k=6, t=2, m=2, n=3)],
         thorough=[dict(k=5, t=4, m=3, n=9), dict(k=10, t=2, m=2, n=3), dict(k=3, t=10, m=2, n=12)])
def steps(ctx, k, t, m, n):
    sim, tpm, pdf = sim_of(ctx, k, t, m)
    tab = nest(ctx, tpm)
    keep = ctx.np.array(tpm)
    sim.initialize_starting_state(pdf)
    now = states_of(ctx, sim)
    ctx.check(len(now) == m, 'a state per subject')
    for s in now:
        ctx.check(ctx.And(s >= 0, s < k), 'a valid state')
        ctx.check(lookup(ctx, ctx.els(pdf), s) > 0, 'a possible initial state')
    for c in range(n):
        sim.step()
        new = states_of(ctx, sim)
        ctx.check(len(new) == m, 'a state per subject')
        moved(ctx, tab, (c + 1) % t, now, new, k)
        ctx.cover(new[0] != now[0], 'a change')
        ctx.check(sim.current_time_step == c + 1, 'counter')
        now = new
    for j in range(k):
        ctx.check(ctx.And(*[ctx.Iff(g, s == j) for g, s in zip(ctx.els(sim.get_n_doing_state(j)), now)]), 'subjects in a state')
    ctx.check(ctx.eq(tpm, keep), 'matrices unaltered')


@harness(H, 'start_later', B + ' of which some before the start', quick=[dict(k=2, t=2, m=1, start=1), dict(k=2, t=2, m=1, start=2)],
         thorough=[dict(k=2, t=3, m=1, start=2), dict(k=3, t=2, m=1, start=3)])
def start_later(ctx, k, t, m, start):
    """Steps made during the initialisation are steps like any other."""
    A = ctx.mod('simulators.activity_simulators')
    tpm, pdf = ctx.pdfs('p', (t, k, k)), ctx.np.array(ctx.pdf('init', k))
    tab = nest(ctx, tpm)
    seen = []

    class Sim(A.MarkovChain1rstOrder):
        def step(self):
            seen.append(states_of(ctx, self))
            super().step()
    sim = Sim(m, k, tpm)
    sim.initialize_starting_state(pdf, start_time_step=start)
    ctx.check(sim.current_time_step == start, 'counter')
    sim.step()
    seen.append(states_of(ctx, sim))
    ctx.check(len(seen) == start + 2, 'one step per time')
    for s in seen[0]:
        ctx.check(lookup(ctx, ctx.els(pdf), s) > 0, 'a possible initial state')
    for c in range(start + 1):
        moved(ctx, tab, (c + 1) % t, seen[c], seen[c + 1], k)


LABELS = {'chars': (['a', 'b', 'c'], ['c', 'd', 'a']), 'numbers': ([11, 0, 10], [10, 11, 3]),
          'more': (['a', 'b', 'c'], ['x', 'b', 'y', 'c', 'a']), 'less': ([3, 2, 1, 0], [1, 3])}


@harness(H, 'replace', B + '; labels that are kept, lost and new, in any order', quick=[dict(kind='numbers', form='array', m=2),
         dict(kind='chars', form='list', m=1), dict(kind='chars', form='array', m=2),
         dict(kind='more', form='array', m=2), dict(kind='less', form='list', m=2)],
         thorough=[dict(kind=kd, form=f, m=3) for kd in LABELS for f in ('array', 'list')])
def replace(ctx, kind, form, m):
    """New matrices: same labelled state, and the new matrices from then on."""
    np = ctx.np
    A = ctx.mod('simulators.activity_simulators')
    old, new = LABELS[kind]
    wrap = np.array if form == 'array' else list
    k, k2, t = len(old), len(new), 2
    sim = A.MarkovChain1rstOrder(m, k, ctx.pdfs('p', (t, k, k)), labels=wrap(old))
    sim.initialize_starting_state(np.array(ctx.pdf('init', k)))
    before = states_of(ctx, sim)
    tpm = ctx.pdfs('q', (t, k2, k2))
    tab = nest(ctx, tpm)
    sim._set_tpm(tpm, new_labels=wrap(new))
    now = states_of(ctx, sim)
    for a, b in zip(before, now):
        for i, lab in enumerate(old):
            if lab in new:
                ctx.check(ctx.Implies(a == i, b == new.index(lab)), 'subjects keep their labelled state')
            else:
                ctx.check(ctx.Implies(a == i, ctx.And(b >= 0, b < k2)), 'a valid state for a lost label')
    for lab in new:
        got = ctx.els(sim.get_n_doing_activity(lab))
        ctx.check(ctx.And(*[ctx.Iff(g, s == new.index(lab)) for g, s in zip(got, now)]), 'subjects by label')
    for c in range(2):
        sim.step()
        new_s = states_of(ctx, sim)
        moved(ctx, tab, (c + 1) % t, now, new_s, k2, 'a possible transition of the new matrices')
        now = new_s


@harness(H, 'refused', 'wrong sizes and invalid distributions', quick=[dict()])
def refused(ctx):
    np = ctx.np
    A = ctx.mod('simulators.activity_simulators')
    p = ctx.pdfs('p', (2, 2, 2))
    M = A.MarkovChain1rstOrder
    ctx.check(ctx.raises(lambda: M(1, 3, p), ValueError)[0], 'wrong number of states')
    ctx.check(ctx.raises(lambda: M(1, 2, p, labels=['a']), ValueError)[0], 'wrong number of labels')
    ctx.check(ctx.raises(lambda: M(1, 2, [[1., 0.], [0., 1.]]), TypeError)[0], 'not an array')
    ctx.check(ctx.raises(lambda: M(1, 2, np.zeros((2, 2, 3))), ValueError)[0], 'not square')
    sim = M(1, 2, p)
    ctx.check(ctx.raises(lambda: sim.initialize_starting_state(np.array([1.])), AssertionError)[0], 'wrong size of the initial distribution')
    q = [ctx.real('q%d' % i, 0, 2) for i in range(2)]
    bad = ctx.Or(q[0] + q[1] > 1.001, q[0] + q[1] < 0.999)
    ctx.assume(bad)
    ctx.check(ctx.raises(lambda: sim.initialize_starting_state(np.array(q)), ValueError)[0], 'invalid initial distribution')
    r = [[[1., 0.], [0., 1.]], [[1., 0.], [q[0], q[1]]]]
    sim = M(1, 2, np.array(r))
    ctx.check(ctx.raises(lambda: sim.initialize_starting_state(np.array([.5, .5])), ValueError)[0], 'invalid matrix')
