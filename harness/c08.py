"""Grouped simulators behave as their parts side by side."""
from symx.run import harness

H = []
NOT_COVERED = ['more parts, households or steps than configured', 'quantities that are dictionaries (the code reads '
               'arrays only)']
B = 'all values, all part sizes within the stated maximum, n steps'


def parts(ctx, sizes, base):
    b = ctx.mod('simulators.base_simulators')

    class Part(b.Simulator):
        """A store per household; two quantities, one of them two dimensional."""

        def __init__(self, n, i):
            super().__init__(n)
            self.store = ctx.reals('s%d' % i, n)
            self.log = []
            self.asked = 0
            self.initialize_starting_state()

        def step(self, inc, *, scale, flag=None):
            self.log.append((inc, scale, flag))
            self.store = self.store * scale + inc
            super().step()

        def get_store(self):
            self.asked += 1
            return self.store

        @b.cached_getter
        def get_table(self):
            return ctx.np.array([self.store, self.store * 2]).T

        def get_whole(self):
            return ctx.np.array([self.n_households])

        def not_a_getter(self):
            return self.store

    return b, [Part(n, i) for i, n in enumerate(sizes)]


def offsets(sizes):
    out, acc = [], 0
    for n in sizes:
        out.append((acc, acc + n))
        acc += n
    return out, acc


def sizes_of(ctx, k, top):
    return [int(ctx.int('n%d' % i, 1, top)) for i in range(k)]


@harness(H, 'steps', B, quick=[dict(k=2, top=2, n=2), dict(k=3, top=1, n=1), dict(k=3, top=[1, 3, 2], n=1), dict(k=1, top=1, n=2)], thorough=[dict(k=3, top=2, n=2), dict(k=2, top=3, n=2), dict(k=4, top=1, n=1)])
def steps(ctx, k, top, n):
    np = ctx.np
    sizes = sizes_of(ctx, k, top) if isinstance(top, int) else list(top)
    b, sims = parts(ctx, sizes, None)
    multi = b.MultiSimulator(sims)
    multi.initialize_starting_state()
    off, total = offsets(sizes)
    ctx.check(multi.n_households == total, 'households add up')
    ctx.check(not hasattr(multi, 'not_a_getter'), 'only quantities are taken over')
    store = ctx.els(np.concatenate([s.store for s in sims]))
    for t in range(n + 1):
        got = multi.get_store()
        ctx.check(ctx.eq(got, np.array(store)), 'concatenation of the parts, never stale')
        tab = multi.get_table()
        ctx.check(ctx.eq(tab, np.array([[v, v * 2] for v in store])), 'concatenation of tables')
        i = int(ctx.int('i%d' % t, -1, total - 1))
        ctx.check(ctx.eq(multi.get_store(i), store[i]), 'one household by its overall index')
        ctx.check(ctx.eq(multi.get_table(i), np.array([store[i], store[i] * 2])), 'one household of a table')
        ctx.check(ctx.eq(multi.get_whole(), np.array(sizes)), 'one entry per part')
        if t == n:
            break
        inc = ctx.reals('inc%d' % t, total)
        scale = ctx.reals('scale%d' % t, total)
        keep = [np.array(inc), np.array(scale)]
        multi.step(inc, scale=scale)
        ctx.check(ctx.eq(inc, keep[0]), 'inputs unchanged')
        for (lo, hi), s in zip(off, sims):
            a, c, _ = s.log[-1]
            ctx.check(len(s.log) == t + 1, 'every part makes one step')
            ctx.check(ctx.And(ctx.eq(a, keep[0][lo:hi]), ctx.eq(c, keep[1][lo:hi])), 'own slice of each input')
            ctx.check(s.current_time_step == t + 1, 'counter of the part')
        store = [v * c + a for v, c, a in zip(store, ctx.els(keep[1]), ctx.els(keep[0]))]
        ctx.check(multi.current_time_step == t + 1, 'counter')


@harness(H, 'logged', B, quick=[dict(n=2)], thorough=[dict(n=4)])
def logged(ctx, n):
    """The group's logger records the group."""
    np = ctx.np
    sizes = [1, 2]
    b, sims = parts(ctx, sizes, None)
    multi = b.MultiSimulator(sims, logger=b.SimLogger('get_store', 'get_table', aggregated=False))
    multi.initialize_starting_state()
    exp = []
    store = np.concatenate([s.store for s in sims])
    for t in range(n):
        exp.append(np.array(store))
        inc = ctx.reals('inc%d' % t, 3)
        multi.step(inc, scale=np.ones(3))
        store = store + inc
    ctx.check(ctx.close(multi.logger.get('get_store'), np.array(exp)), 'logged values of the group')


@harness(H, 'nested', B, quick=[dict()])
def nested(ctx):
    """A group inside a group."""
    np = ctx.np
    b, sims = parts(ctx, [2, 1, 2], None)
    inner = b.MultiSimulator(sims[:2])
    inner.initialize_starting_state()
    outer = b.MultiSimulator([inner, sims[2]])
    outer.initialize_starting_state()
    ctx.check(outer.n_households == 5, 'households add up')
    inc = ctx.reals('inc', 5)
    scale = ctx.reals('scale', 5)
    before = np.concatenate([s.store for s in sims])
    ctx.check(ctx.eq(outer.get_store(), before), 'before the step')
    outer.step(inc, scale=scale)
    ctx.check(ctx.eq(outer.get_store(), before * scale + inc), 'after the step')
    ctx.check(ctx.eq(outer.get_store(4), before[4] * scale[4] + inc[4]), 'one household')


@harness(H, 'subgroups', 'parts with any of the listed attribute values, any requested subgroup', quick=[dict(k=2)],
         thorough=[dict(k=4)])
def subgroups(ctx, k):
    sizes = [1, 2, 1, 1][:k]
    b, sims = parts(ctx, sizes, None)
    keys = ('n_residents', 'household_type')
    for i, s in enumerate(sims):
        s.subgroup = {}
        for key in keys:
            if bool(ctx.bool('has_%s_%d' % (key, i))):
                s.subgroup[key] = ctx.int('%s_%d' % (key, i), 1, 3)
    want = {}
    for key in keys:
        if bool(ctx.bool('want_%s' % key)):
            want[key] = ctx.int('want_val_%s' % key, 1, 3)
    multi = b.MultiSimulator(sims)
    mask = multi.get_mask_subgroup(want)
    exp = []
    for s, n in zip(sims, sizes):
        ok = True
        for key, v in want.items():
            ok = ctx.And(ok, (s.subgroup[key] == v) if key in s.subgroup else False)
        exp += [ok] * n
    ctx.check(ctx.shape(mask) == (sum(sizes),), 'one mark per household')
    for m, e in zip(ctx.els(mask), exp):
        ctx.check(ctx.Iff(m, e), 'exactly the matching households')


@harness(H, 'residents', 'any residents numbers', quick=[dict()])
def residents(ctx):
    b, sims = parts(ctx, [2, 1], None)
    a, c = ctx.int('a', 1, 6), ctx.int('c', 1, 6)
    sims[0].n_residents, sims[1].n_residents = a, c
    multi = b.MultiSimulator(sims)
    ctx.check(ctx.eq(multi.n_residents, ctx.np.array([a, a, c])), 'residents of each household')


@harness(H, 'cache', B, quick=[dict(n=2)])
def cache(ctx, n):
    """cached_getter: computed from the current state, once per step."""
    b, (s,) = parts(ctx, [2], None)
    for t in range(n):
        ctx.check(ctx.eq(s.get_table(), ctx.np.array([s.store, s.store * 2]).T), 'current value')
        ctx.check(ctx.eq(s.get_table(1), ctx.np.array([s.store[1], s.store[1] * 2])), 'one household')
        s.step(ctx.reals('inc%d' % t, 2), scale=ctx.np.ones(2))
        ctx.check(ctx.eq(s.get_table(0), ctx.np.array([s.store[0], s.store[0] * 2])), 'never stale after a step')
