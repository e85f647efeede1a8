"""The logger records what the simulator showed, once per step."""
from symx.run import harness

H = []
NOT_COVERED = ['more steps, households or attributes than configured', 'plotting']
B = 'all values of the quantities at every step, any mix of aggregated and plain attributes, n steps'


def sim_class(ctx, base, n_hh, steps):
    b = ctx.mod('simulators.base_simulators')

    class Sim(getattr(b, base)):
        def __init__(self, vals, dic, **kw):
            self.vals, self.dic = vals, dic
            self.pos = 0
            self.power = ctx.np.array(vals[0])
            self.heat = {k: ctx.np.array(dic[k][0]) for k in dic}
            super().__init__(n_hh, **kw)

        def get_power(self):
            return self.power

        @b.cached_getter
        def get_cached(self):
            return self.power * 2

        def get_parts(self):
            # the arrays themselves are updated in place
            return self.heat

        @property
        def attr(self):
            return self.power + 1

        def step(self):
            self.pos += 1
            # the same array is updated in place at every step
            self.power[:] = self.vals[self.pos]
            for k in self.dic:
                self.heat[k][:] = self.dic[k][self.pos]
            super().step()
    return b, Sim


def expect(ctx, vals, agg):
    return [ctx.sum(ctx.els(v)) if agg else v for v in vals]


@harness(H, 'series', B, quick=[dict(n=3, hh=2, init=0), dict(n=2, hh=2, init=2), dict(n=0, hh=1, init=0)],
         thorough=[dict(n=6, hh=3, init=3)])
def series(ctx, n, hh, init):
    np = ctx.np
    T = n + init + 1
    vals = [ctx.reals('v%d' % t, hh) for t in range(T)]
    dic = {k: [ctx.reals('%s%d' % (k, t), hh) for t in range(T)] for k in ('heat', 'water')}
    b, Sim = sim_class(ctx, 'Simulator', hh, T)
    agg = [bool(ctx.bool('agg%d' % i)) for i in range(4)]
    attrs = ['get_power', 'get_cached', 'get_parts', 'attr']
    given = b.SimLogger(attrs, aggregated=agg)
    sim = Sim(vals, dic, logger=given)
    ctx.check(sim.logger is not given, 'an attached logger is a copy')
    sim.initialize_starting_state(init)
    for _ in range(n):
        sim.get_cached()
        sim.step()
    log = sim.logger
    seen = vals[init:init + n]
    for attr, a, f in zip(attrs, agg, (lambda v: v, lambda v: v * 2, None, lambda v: v + 1)):
        got = log.get(attr)
        if f is None:
            ctx.check(set(got) == {'heat', 'water'}, 'one series per key')
            for k in got:
                e = expect(ctx, dic[k][init:init + n], a)
                ctx.check(len(got[k]) == n, 'n steps give n entries (dictionary)')
                if n:
                    ctx.check(ctx.close(got[k], np.array(e)), 'recorded dictionary values')
        else:
            e = expect(ctx, [f(v) for v in seen], a)
            ctx.check(len(got) == n, 'n steps give n entries')
            if n:
                ctx.check(ctx.close(got, np.array(e)), 'recorded values')
    ctx.check(len(ctx.els(np.array(given.get('attr')))) == 0, 'the given logger is not written')
    # recorded values survive later steps in the results already read
    if n:
        before = [np.array(x) for x in (log.get('get_power'),)]
        got = log.get('get_power')
        sim.power[:] = 0
        ctx.check(ctx.eq(got, before[0]), 'recorded values do not change afterwards')
        ctx.check(ctx.eq(log.get('get_power'), before[0]), 'recorded values do not change afterwards')
    log.clear()
    for attr in attrs:
        x = log.get(attr)
        ctx.check(len(x) == 0 or all(len(v) == 0 for v in x.values()), 'clearing empties the record')


@harness(H, 'copies', B, quick=[dict(n=2, hh=2)])
def copies(ctx, n, hh):
    """One logger attached to two simulators, and copied after use."""
    np = ctx.np
    b, Sim = sim_class(ctx, 'Simulator', hh, n + 1)
    va = [ctx.reals('a%d' % t, hh) for t in range(n + 1)]
    vb = [ctx.reals('b%d' % t, hh) for t in range(n + 1)]
    given = b.SimLogger('get_power', 'attr', aggregated=False)
    s1, s2 = Sim(va, {}, logger=given), Sim(vb, {}, logger=given)
    s1.initialize_starting_state()
    s2.initialize_starting_state()
    s1.step()
    s2.step()
    s1.step()
    c = s1.logger.copy()
    ctx.check(len(c.get('get_power')) == 0, 'a copy is empty')
    ctx.check(c.length == 0, 'a copy is empty (length)')
    ctx.check(c.attributes_list == ['get_power', 'attr'], 'a copy logs the same quantities')
    ctx.check(ctx.close(s1.logger.get('get_power'), np.array(va[:2])), 'first simulator')
    ctx.check(ctx.close(s2.logger.get('get_power'), np.array(vb[:1])), 'second simulator')
    s3 = Sim(vb, {}, logger=s1.logger)
    s3.initialize_starting_state()
    s3.step()
    ctx.check(ctx.close(s3.logger.get('attr'), np.array([vb[0] + 1])), 'third simulator')
    ctx.check(ctx.close(s1.logger.get('get_power'), np.array(va[:2])), 'first simulator keeps its record')
    c.attributes_list.append('other')
    c.aggregated.append(True)
    ctx.check(s1.logger.attributes_list == ['get_power', 'attr'], 'attributes are not shared')


@harness(H, 'times', 'any start date and step size', quick=[dict(n=3)])
def times(ctx, n):
    """The clock is recorded as it is, also when everything else is summed."""
    np = ctx.np
    dt = ctx.dt
    b, Sim = sim_class(ctx, 'TimeAwareSimulator', 2, n + 1)
    vals = [ctx.reals('v%d' % t, 2) for t in range(n + 1)]
    start = ctx.datetime('t')
    size = dt.timedelta(seconds=ctx.int('step', 1, 10 ** 6))
    sim = Sim(vals, {}, start_datetime=start, step_size=size,
              logger=b.SimLogger(['current_time', 'get_power', 'current_time_step'], aggregated=True))
    sim.initialize_starting_state()
    for _ in range(n):
        sim.step()
    got = list(sim.logger.get('current_time'))
    ctx.check(len(got) == n, 'n steps give n times')
    for k, t in enumerate(got):
        ctx.check(t == start + size * k, 'time of the entry')
    ctx.check(ctx.close(sim.logger.get('get_power'), np.array(expect(ctx, vals[:n], True))), 'summed values')
    ctx.check(ctx.eq(sim.logger.get('current_time_step'), np.arange(n)), 'step of the entry')


@harness(H, 'merged', B + '; two loggers added before or after the simulation', quick=[dict(n=2, hh=2)], thorough=[dict(n=4, hh=3)])
def merged(ctx, n, hh):
    """Adding loggers keeps the quantities of both as each records them."""
    np = ctx.np
    b, Sim = sim_class(ctx, 'Simulator', hh, n + 2)
    vals = [ctx.reals('v%d' % t, hh) for t in range(n + 2)]
    agg = [bool(ctx.bool('agg%d' % i)) for i in range(3)]
    one, two = b.SimLogger(['get_power', 'get_cached'], aggregated=agg[:2]), b.SimLogger('attr', aggregated=agg[2])
    if bool(ctx.bool('before')):
        sim = Sim(vals, {}, logger=one + two)
        sims = [sim]
    else:
        sims = [Sim(vals, {}, logger=one), Sim(vals, {}, logger=two)]
    for sim in sims:
        sim.initialize_starting_state()
        for _ in range(n):
            sim.step()
    log = sims[0].logger if len(sims) == 1 else sims[0].logger + sims[1].logger
    ctx.check(log.attributes_list == ['get_power', 'get_cached', 'attr'], 'the quantities of both')
    for attr, a, f in zip(log.attributes_list, agg, (lambda v: v, lambda v: v * 2, lambda v: v + 1)):
        got = log.get(attr)
        ctx.check(ctx.shape(got) == ((n,) if a else (n, hh)), 'recorded as its own logger asks')
        ctx.check(ctx.close(got, np.array(expect(ctx, [f(v) for v in vals[:n]], a))), 'recorded values of both')
    c = log.copy()
    ctx.check(c.attributes_list == log.attributes_list and list(c.aggregated) == agg and all(len(c.get(x)) == 0 for x in c.attributes_list),
              'a copy of the sum logs the same quantities')
    s = sims[0]
    s.step()
    ctx.check(ctx.raises(lambda: s.logger + b.SimLogger('attr'), ValueError)[0], 'records of different lengths are not added')
    ctx.check(ctx.raises(lambda: log + 'attr', TypeError)[0], 'only loggers are added')


@harness(H, 'again', B + '; initialised twice', quick=[dict(hh=2, init=0), dict(hh=1, init=1)])
def again(ctx, hh, init):
    """Initialising again starts a new record."""
    np = ctx.np
    b, Sim = sim_class(ctx, 'Simulator', hh, 2 * init + 4)
    vals = [ctx.reals('v%d' % t, hh) for t in range(2 * init + 4)]
    sim = Sim(vals, {}, logger=b.SimLogger(['get_power', 'attr'], aggregated=False))
    sim.initialize_starting_state(init)
    sim.step()
    sim.initialize_starting_state(init)
    sim.step()
    sim.step()
    first = 2 * init + 1
    got = sim.logger.get('get_power')
    ctx.check(len(got) == 2, 'n steps after initialisation give n entries')
    ctx.check(ctx.close(got, np.array(vals[first:first + 2])), 'values since the initialisation')


@harness(H, 'partial_clear', B, quick=[dict(hh=2)])
def partial_clear(ctx, hh):
    """Clearing one quantity leaves the other's record."""
    np = ctx.np
    b, Sim = sim_class(ctx, 'Simulator', hh, 4)
    vals = [ctx.reals('a%d' % t, hh) for t in range(4)]
    sim = Sim(vals, {}, logger=b.SimLogger(['get_power', 'attr'], aggregated=False))
    sim.initialize_starting_state()
    sim.step()
    sim.logger.clear(ctx.choice('form', ['attr', ['attr']]))
    ctx.check(len(sim.logger.get('attr')) == 0, 'cleared')
    sim.step()
    sim.step()
    ctx.check(ctx.close(sim.logger.get('get_power'), np.array(vals[:3])), 'the other record is complete')
    ctx.check(ctx.close(sim.logger.get('attr'), np.array([vals[2] + 1])), 'the cleared one starts again')


@harness(H, 'refusals', 'wrong arguments', quick=[dict()])
def refusals(ctx):
    b = ctx.mod('simulators.base_simulators')
    log = b.SimLogger(['a', 'b'])
    for f in (lambda: log.get('c'), lambda: log.clear('c'), lambda: log.get(),
              lambda: b.SimLogger(['a', 'b'], aggregated=[True])):
        err, _ = ctx.raises(f, ValueError)
        ctx.check(err, 'unknown quantity is refused')
    for f in (lambda: b.SimLogger(3), lambda: b.SimLogger(['a'], aggregated='yes'), lambda: b.Simulator(1, logger='x')):
        err, _ = ctx.raises(f, TypeError)
        ctx.check(err, 'wrong type is refused')
