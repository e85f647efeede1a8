"""The load of a household is the sum of its parts, fed with the same time."""
import contextlib
import inspect

from symx.run import harness

H = []
NOT_COVERED = ['the parts themselves (their own properties); they are replaced by recording stand-ins',
               'the fallback on the CREST four states model, which draws its own population',
               'step sizes other than one minute']
ASSUMPTIONS = ['every part steps when its step method is called, and its getters give the values of its current step']


def parts(ctx, n, log):
    """Stand-in classes; part p gives p.val(getter, step)."""
    ls = ctx.mod('simulators.load_simulators')
    values = {}

    def val(part, getter, k, shape):
        key = '%s_%s_%s' % (part, getter, k)
        if key not in values:
            values[key] = ctx.reals(key, shape, -1000, 1000) if shape else ctx.real(key, -1000, 1000)
        return values[key]

    def make(part, real, getters):
        cls = getattr(ls, real)
        init_sig, step_sig = inspect.signature(cls.__init__), inspect.signature(cls.step)

        class Part:
            k = 0

            def __init__(self, *a, **kw):
                b = init_sig.bind(self, *a, **kw)
                b.apply_defaults()
                self.args = dict(b.arguments)
                for v in b.signature.parameters.values():
                    if v.kind is v.VAR_KEYWORD:
                        self.args.update(self.args.pop(v.name, {}))
                self.steps = []
                log[part] = self

            def step(self, *a, **kw):
                try:
                    b = step_sig.bind(self, *a, **kw)
                    d = dict(b.arguments)
                    for v in b.signature.parameters.values():
                        if v.kind is v.VAR_POSITIONAL:
                            d.update({'arg%d' % i: x for i, x in enumerate(d.pop(v.name, ()))})
                        if v.kind is v.VAR_KEYWORD:
                            d.update(d.pop(v.name, {}))
                except TypeError as e:
                    raise AssertionError('part called wrongly: %s' % e)
                d.pop('self', None)
                self.k = self.k + 1
                self.steps.append(d)

        def getter(g, shape):
            def f(self, n_ieth_hh=None):
                r = val(part, g, self.k, shape)
                return r if n_ieth_hh is None else r[n_ieth_hh]
            return f
        for g, shape in getters.items():
            setattr(Part, 'get_' + g, getter(g, shape))
        return Part

    arr = n
    std = {
        'SubgroupsActivitySimulator': make('activity', 'SubgroupsActivitySimulator', {'active_occupancy': arr, 'thermal_gains': arr}),
        'OccupancyApplianceSimulator': make('appliances', 'OccupancyApplianceSimulator', {
            'power_demand': arr, 'dhw_heating_demand': arr, 'thermal_gains': arr}),
        'RealInterpolatedClimate': make('climate', 'RealInterpolatedClimate', {'outside_temperature': None, 'irradiance': None}),
        'CrestLightingSimulator': make('light', 'CrestLightingSimulator', {'power_demand': arr, 'thermal_gains': arr}),
        'FiveModulesHeatingSimulator': make('heating', 'FiveModulesHeatingSimulator', {
            'power_demand': arr, 'total_heat_demand': arr, 'dhw_heat_demand': arr, 'sh_heat_demand': arr,
            'temperatures': arr}),
    }
    return ls, std, val


class Data:
    """Data set with two groups."""

    def __init__(self, pdf):
        self.pdf = pdf
        self.groups = [{'n_residents': 1}, {'n_residents': 2}]

    def load_population_subgroups(self):
        return self.groups, self.pdf, 100


@contextlib.contextmanager
def simulator(ctx, n, counts, **kw):
    log = {}
    ls, std, val = parts(ctx, n, log)
    data = Data(ctx.np.array([0.5, 0.5]))
    asked = []

    def sample(m, pdf, *a, **k):
        asked.append((m, pdf))
        return ctx.np.array(counts)
    start = ctx.dt.datetime(2014, 3, 1) + ctx.dt.timedelta(minutes=ctx.int('start', 0, 3000))
    with ctx.patched(ls, sample_population=sample, **std):
        sim = ls.LoadSimulator(n, start_datetime=start, data=data, **kw)
        ctx.check(len(asked) == 1 and asked[0][0] == n, 'population of the number of households')
        yield sim, log, val, data, start


def group_args(ctx, log, data, counts, part):
    a = log[part].args
    ctx.check(list(a['subgroups_list']) == data.groups, 'groups given to ' + part)
    ctx.check([int(e) for e in a['n_households_list']] == counts, 'sizes of the groups given to ' + part)


def value_of(step, names, index):
    for nm in names:
        if nm in step:
            return step[nm]
    return list(step.values())[index]


@harness(H, 'parts', 'all outputs of the parts, 2 groups of households, with and without heating and climate, every '
         'combination of external weather; T steps', quick=[dict(counts=[1, 1], T=2)],
         thorough=[dict(counts=[2, 1], T=3)])
def parts_(ctx, counts, T):
    n = sum(counts)
    np = ctx.np
    heat = ctx.choice('heat', [True, False])
    clim = ctx.choice('clim', [True, False])
    with simulator(ctx, n, counts, include_heating=heat, include_climate=clim) as (sim, log, val, data, start):
        expected = {'activity', 'appliances', 'light'} | ({'heating'} if heat else set()) | ({'climate'} if clim else set())
        ctx.check(set(log) == expected, 'parts present')
        for p in ('activity', 'appliances'):
            group_args(ctx, log, data, counts, p)
        for p in ('activity', 'appliances', 'climate'):
            if p in log:
                ctx.check(log[p].args['start_datetime'] == start, 'start of ' + p)
        if clim:
            ctx.check(log['climate'].args['step_size'] == sim.step_size, 'step size of the climate')
        for p in ('light', 'heating'):
            if p in log:
                ctx.check(log[p].args['n_households'] == n, 'households of ' + p)
        ctx.check(ctx.eq(log['appliances'].args['initial_active_occupancy'], val('activity', 'active_occupancy', 0, n)),
                  'initial occupancy of the appliances')
        if heat and clim:
            ctx.check(log['heating'].args['initial_outside_temperature'] == val('climate', 'outside_temperature', 0, None),
                      'initial outside temperature')
        for t in range(T + 1):
            if t:
                given = {}
                if ctx.choice('ext_t%d' % t, [True, False]):
                    given['external_outside_temperature'] = ctx.real('et%d' % t, -30, 40)
                if ctx.choice('ext_i%d' % t, [True, False]):
                    given['external_irradiance'] = ctx.real('ei%d' % t, 0, 1000)
                extra = {}
                for i, nm in enumerate(('external_target_temperature', 'external_heat_outputs', 'external_dhw_outputs',
                                        'external_sh_outputs', 'external_cylinder_temperature')):
                    if (i + t) % 2 and heat:
                        extra[nm] = ctx.reals('%s%d' % (nm, t), n, 0, 100)
                missing = not clim and len(given) < 2
                raised, _ = ctx.raises(lambda: sim.step(**given, **extra), ValueError)
                ctx.check(raised == missing, 'weather required when not simulated')
                if raised:
                    return
                ka = log['activity'].k
                occ = val('activity', 'active_occupancy', ka, n)
                st = {p: log[p].steps for p in log}
                for p in log:
                    if p != 'activity':
                        ctx.check(len(st[p]) == t, 'one step of each part: ' + p)
                ctx.check(ctx.eq(value_of(st['appliances'][-1], ['occupancy', 'active_occupancy'], 0), occ), 'occupancy of the appliances')
                ctx.check(ctx.eq(value_of(st['light'][-1], ['active_occupancy'], 0), occ), 'occupancy of the lights')
                temp = given.get('external_outside_temperature')
                temp = temp if temp is not None else val('climate', 'outside_temperature', t, None)
                irr = given.get('external_irradiance')
                irr = irr if irr is not None else val('climate', 'irradiance', t, None)
                ctx.check(ctx.eq(value_of(st['light'][-1], ['external_irradiance', 'irradiance'], 1), irr), 'irradiance of the lights')
                if heat:
                    h = st['heating'][-1]
                    want = dict(outside_temperature=temp, irradiance=irr,
                                dhw_heating_demand=val('appliances', 'dhw_heating_demand', t, n),
                                occupancy_thermal_gains=val('activity', 'thermal_gains', ka, n),
                                lighting_thermal_gains=val('light', 'thermal_gains', t, n),
                                appliances_thermal_gains=val('appliances', 'thermal_gains', t, n), **extra)
                    for k, v in want.items():
                        ctx.check(k in h and ctx.eq(h[k], v), 'input of the heating: ' + k)
                    for k, v in h.items():
                        if k not in want:
                            ctx.check(v is None, 'unset input of the heating')
            p = [val(q, 'power_demand', t, n) for q in ('appliances', 'light') + (('heating',) if heat else ())]
            got = sim.get_power_demand()
            ctx.check(ctx.shape(got) == (n,), 'one value per household')
            for i in range(n):
                ctx.check(ctx.close(got[i], ctx.sum([e[i] for e in p]), 1e-6), 'power is the sum of the parts')
            ctx.check(ctx.close(sim.get_power_demand(0), got[0]), 'power of one household')
            if heat:
                for g in ('total_heat_demand', 'dhw_heat_demand', 'sh_heat_demand', 'temperatures'):
                    ctx.check(ctx.eq(getattr(sim, 'get_' + g)(), val('heating', g, t, n)), 'heat getters')


@harness(H, 'clock', 'all instants of a simulation of up to 10000 minutes, from any minute of two days',
         quick=[dict(steps=2)], thorough=[dict(steps=11)])
def clock(ctx, steps):
    with simulator(ctx, 1, [1, 0], include_heating=False) as (sim, log, val, data, start):
        k = ctx.int('k', 0, 10000)
        act = log['activity']
        # the state after k minutes: the activities of ten minutes are those of the last full ten minutes
        sim.current_time_step = k
        sim.current_time = start + ctx.dt.timedelta(minutes=k)
        done = k // 10
        act.get_active_occupancy = act.get_thermal_gains = lambda *a: ctx.np.zeros(1)
        act.k = 0
        for s in range(1, steps + 1):
            sim.step()
            ctx.check(sim.current_time == start + ctx.dt.timedelta(minutes=k + s), 'clock of the load')
            ctx.check(done + act.k == (k + s) // 10, 'activities are those of the current ten minutes')
