"""The simulation clock starts where asked and advances by one step per step."""
from symx.run import harness

H = []
NOT_COVERED = ['initialisations of more steps than the stated bound', 'years outside 1999..2031',
               'time zones with changing offsets']
ASSUMPTIONS = ['datetime is replaced by a symbolic calendar; replays use the real datetime']
B = 'any start date and time of 1999..2031, any step size in whole seconds, up to the stated number of steps'


def sim_class(b):
    class Sim(b.TimeAwareSimulator):
        def step(self, tag=None):
            self.seen.append((self.current_time, self.current_time_step, tag))
            super().step()
    return Sim


@harness(H, 'datetime_init', B, quick=[dict(n=4), dict(n=2, micro=True)], thorough=[dict(n=12), dict(n=4, micro=True)])
def datetime_init(ctx, n, micro=False):
    b = ctx.mod('simulators.base_simulators')
    dt = ctx.dt
    start = ctx.datetime('t', micro=micro)
    size = dt.timedelta(seconds=ctx.int('step', 0 if micro else 1, 200000),
                        microseconds=ctx.int('step_us', 0, 999999) if micro else 0)
    ctx.assume(size > dt.timedelta(0))
    back = ctx.int('back', -50000, 2000000)
    first = start - dt.timedelta(seconds=back)
    ctx.assume(dt.timedelta(seconds=back) < size * (n + 1))
    sim = sim_class(b)(ctx.int('hh', 1, 3), start_datetime=start, step_size=size)
    sim.seen = []
    err, _ = ctx.raises(lambda: sim.initialize_starting_state(initialization_time=first, tag='x'), ValueError)
    if err:
        ctx.check(back < 0, 'an earlier initialisation is accepted')
        return
    ctx.check(back >= 0, 'a later initialisation is refused')
    k = len(sim.seen)
    ctx.check(sim.current_time == start, 'clock ends at the start')
    ctx.check(sim.current_time_step == k, 'counter shows the steps')
    ctx.check(dt.timedelta(seconds=back) >= size * k, 'no more steps than fit')
    ctx.check(dt.timedelta(seconds=back) < size * (k + 1), 'all steps that fit')
    for i, (t, c, tag) in enumerate(sim.seen):
        ctx.check(ctx.And(t == start - size * (k - i), c == i), 'clock during initialisation')
        ctx.check(tag == 'x', 'arguments reach every step')
    ctx.cover(k == n, 'deepest initialisation')
    for i in range(2):
        sim.step()
        ctx.check(sim.current_time == start + size * (i + 1), 'one step size per step')
        ctx.check(sim.current_time_step == k + i + 1, 'counter per step')


@harness(H, 'time_init', 'any start of 1999..2031 to the second, any initialisation time of day, steps of at least '
         'the stated size', quick=[dict(n=3)], thorough=[dict(n=8)])
def time_init(ctx, n):
    """A time of day means the last such time not after the start."""
    b = ctx.mod('simulators.base_simulators')
    dt = ctx.dt
    start = ctx.datetime('t')
    ah, am, as_ = ctx.int('ah', 0, 23), ctx.int('am', 0, 59), ctx.int('as', 0, 59)
    size = dt.timedelta(seconds=ctx.int('step', 86400 // n, 90000))
    sim = sim_class(b)(1, start_datetime=start, step_size=size)
    sim.seen = []
    sim.initialize_starting_state(initialization_time=dt.time(ah, am, as_))
    day = start - dt.timedelta(hours=start.hour, minutes=start.minute, seconds=start.second)
    first = day + dt.timedelta(hours=ah, minutes=am, seconds=as_)
    if bool(first > start):
        first = first - dt.timedelta(days=1)
    gap = start - first
    k = len(sim.seen)
    ctx.check(sim.current_time == start, 'clock ends at the start')
    ctx.check(sim.current_time_step == k, 'counter shows the steps')
    ctx.check(ctx.And(gap >= size * k, gap < size * (k + 1)), 'whole steps that fit')
    sim.step()
    ctx.check(ctx.And(sim.current_time == start + size, sim.current_time_step == k + 1), 'next step')


@harness(H, 'no_init', 'any start and step size', quick=[dict()])
def no_init(ctx):
    b = ctx.mod('simulators.base_simulators')
    dt = ctx.dt
    start = ctx.datetime('t', micro=True)
    size = dt.timedelta(seconds=ctx.int('step', 1, 10 ** 7))
    sim = sim_class(b)(2, start_datetime=start, step_size=size)
    sim.seen = []
    sim.initialize_starting_state(start_time_step=7)
    ctx.check(ctx.And(sim.current_time == start, sim.current_time_step == 0, len(sim.seen) == 0), 'no steps')
    for bad in (3, 'now', dt.timedelta(1)):
        err, _ = ctx.raises(lambda: sim.initialize_starting_state(initialization_time=bad), NotImplementedError)
        ctx.check(err, 'unknown kind of initialisation is refused')


@harness(H, 'counter', 'any integer number of initial steps up to the stated one', quick=[dict(n=5)],
         thorough=[dict(n=30)])
def counter(ctx, n):
    b = ctx.mod('simulators.base_simulators')

    class Sim(b.Simulator):
        def step(self, *a, **k):
            args.append((self.current_time_step, a, k))
            super().step()
    args = []
    hh = ctx.int('hh', -3, 3)
    err, sim = ctx.raises(lambda: Sim(hh), ValueError)
    ctx.check(ctx.Iff(err, hh <= 0), 'exactly non-positive numbers of households are refused')
    if err:
        return
    ctx.check(sim.n_households == hh, 'number of households')
    k = ctx.int('k', -2, n)
    err, _ = ctx.raises(lambda: sim.initialize_starting_state(k, 'a', b=2), ValueError)
    ctx.check(ctx.Iff(err, k < 0), 'exactly negative step counts are refused')
    if err:
        return
    ctx.check(ctx.And(len(args) == k, sim.current_time_step == k), 'as many steps as asked')
    for i, (c, a, kw) in enumerate(args):
        ctx.check(ctx.And(c == i, a == ('a',), kw == {'b': 2}), 'arguments of the steps')
    sim.step()
    ctx.check(sim.current_time_step == k + 1, 'counter per step')


@harness(H, 'types', 'wrong kinds of arguments', quick=[dict()])
def types_(ctx):
    b = ctx.mod('simulators.base_simulators')
    dt = ctx.dt
    bad = ctx.choice('bad', ['x', None, [1, 2], {}])
    err, _ = ctx.raises(lambda: b.Simulator(bad), TypeError)
    ctx.check(err, 'number of households must be a number')
    sim = b.Simulator(1)
    for v in ('1', 1.0, None, 2.5):
        err, _ = ctx.raises(lambda: sim.initialize_starting_state(v), TypeError)
        ctx.check(err, 'step count must be an integer')
    err, _ = ctx.raises(lambda: b.TimeAwareSimulator(1, start_datetime=bad), TypeError)
    ctx.check(err, 'start must be a date and time')
    err, _ = ctx.raises(lambda: b.TimeAwareSimulator(1, start_datetime=dt.datetime(2014, 1, 1), step_size=bad), TypeError)
    ctx.check(err, 'step size must be a duration')
