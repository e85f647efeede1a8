"""Day and refresh events fire on exactly the right simulation steps."""
from symx.run import harness

H = []
NOT_COVERED = ['years outside 1999..2031, time zones with changing offsets', 'steps longer than one day',
               'more steps than configured']
ASSUMPTIONS = ['datetime is replaced by a symbolic calendar (whole seconds and microseconds since year one, Gregorian '
               'rules); replays use the real datetime']
B = ('any start date and time of 1999..2031 to the second, any step of 1..86400 whole seconds (and microseconds where '
     'listed), n steps')

NEW = {'before_next_day': 'on_before_next_day', 'after_next_day': 'on_after_next_day',
       'before_next_day_4am': 'on_before_next_day_4am', 'after_next_day_4am': 'on_after_next_day_4am',
       'before_refresh_time': 'on_before_refresh_time', 'after_refresh_time': 'on_after_refresh_time'}
OLD = {'before_next_day_callback': 'on_before_next_day', 'after_next_day_callback': 'on_after_next_day',
       'before_next_day_callback_4am': 'on_before_next_day_4am', 'after_next_day_callback_4am': 'on_after_next_day_4am'}


class Data:
    pass


def simulate(ctx, name, n, micro=False, mult=None):
    b = ctx.mod('simulators.base_simulators')
    dt = ctx.dt
    deco = getattr(b, name) if name in OLD else getattr(b.Callbacks, name)
    hook = OLD.get(name) or NEW[name]
    calls = []

    def on(self):
        calls.append((len(self.done), self.current_time, self.value))

    def step(self, inc):
        self.value = self.value + inc
        b.TimeAwareSimulator.step(self)
        self.done.append(self.current_time)
        return 'out'

    Sim = type('Sim', (b.TimeAwareSimulator,), {'step': deco(step), hook: on})
    start = ctx.datetime('t', micro=micro)
    if mult:
        size = dt.timedelta(seconds=mult)
    else:
        size = dt.timedelta(seconds=ctx.int('step', 0 if micro else 1, 86400),
                            microseconds=ctx.int('step_us', 0, 999999) if micro else 0)
        ctx.assume(ctx.And(size > dt.timedelta(0), size <= dt.timedelta(days=1)))
    sim = Sim(1, start_datetime=start, step_size=size)
    sim.done, sim.value = [], 0
    sim.data = Data()
    if 'refresh' in name:
        h = ctx.int('rh', 0, 23)
        m = ctx.int('rm', 0, 59)
        sim.data.refresh_time = dt.time(h, m, 0)
    sim.initialize_starting_state()
    ctx.check(len(calls) == 0, 'no event before the first step')
    t = start
    for k in range(n):
        calls.clear()
        v = sim.value
        out = sim.step(3)
        ctx.check(out == 'out', 'the value of the step is returned')
        t2 = t + size
        ctx.check(sim.current_time == t2, 'clock')
        if 'refresh' in name:
            due = ctx.And(t.time() == sim.data.refresh_time)
        elif '4am' in name:
            s = dt.timedelta(hours=4)
            due = (t - s).toordinal() != (t2 - s).toordinal()
        else:
            due = t.toordinal() != t2.toordinal()
        ctx.check(len(calls) <= 1, 'at most one event per step')
        ctx.cover(due, 'event due')
        if calls:
            ctx.check(due, 'event only when due')
            _, when, value = calls[0]
            before = 'before' in name
            ctx.check(when == (t if before else t2), 'clock seen by the event')
            ctx.check(value == (v if before else v + 3), 'state seen by the event')
        else:
            ctx.check(ctx.Not(due), 'event missed')
        t = t2


@harness(H, 'events', B, quick=[dict(name=k, n=2) for k in list(NEW) + list(OLD)],
         thorough=[dict(name=k, n=4) for k in list(NEW) + list(OLD)])
def events(ctx, name, n):
    simulate(ctx, name, n)


@harness(H, 'events_micro', B, quick=[dict(name=k, n=1) for k in NEW],
         thorough=[dict(name=k, n=2) for k in NEW])
def events_micro(ctx, name, n):
    simulate(ctx, name, n, micro=True)


@harness(H, 'fixed_step', 'steps of 60, 600, 900, 3600 and 86400 seconds, any start date and time',
         quick=[dict(name=k, n=3, mult=m) for k in NEW for m in (3600,)],
         thorough=[dict(name=k, n=4, mult=m) for k in NEW for m in (60, 600, 900, 86400)])
def fixed_step(ctx, name, n, mult):
    simulate(ctx, name, n, mult=mult)


@harness(H, 'both_sides', 'two events on one step function', quick=[dict()])
def both_sides(ctx):
    """Stacked decorators: each event keeps its own rule."""
    b = ctx.mod('simulators.base_simulators')
    dt = ctx.dt
    calls = []

    class Sim(b.TimeAwareSimulator):
        @b.Callbacks.before_next_day
        @b.Callbacks.after_next_day_4am
        def step(self):
            super().step()

        def on_before_next_day(self):
            calls.append(('day', self.current_time))

        def on_after_next_day_4am(self):
            calls.append(('4am', self.current_time))

    start = ctx.datetime('t')
    size = dt.timedelta(seconds=ctx.int('step', 1, 86400))
    sim = Sim(1, start_datetime=start, step_size=size)
    sim.initialize_starting_state()
    sim.step()
    t2 = start + size
    s = dt.timedelta(hours=4)
    ctx.check(ctx.Iff('day' in [c[0] for c in calls], start.toordinal() != t2.toordinal()), 'day event')
    ctx.check(ctx.Iff('4am' in [c[0] for c in calls], (start - s).toordinal() != (t2 - s).toordinal()), '4 am event')
