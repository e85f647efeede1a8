"""Thermostats with dead-bands, system controls and external set points."""
from symx.run import harness

H = []
NOT_COVERED = ['temperatures exactly at set point plus or minus the dead-band (either decision is accepted)']
KINDS = {'hot_water': ('cylinder', 'dhw'), 'space_heating': ('interior', 'space_heating'), 'emitter': ('emitter', 'emitter')}


class Data:
    """Heating data with k set points, s kinds of systems and b kinds of buildings."""

    def __init__(self, ctx, k=2, s=1, b=1, band=None, nominal=None):
        np = ctx.np
        cdf = [(i + 1) / k for i in range(k)]
        self.band = band or {q: ctx.real('band_' + q, 0, 10) for q in KINDS}
        self.thermo = {
            'home_temperatures_cdf': np.array(cdf), 'home_temperatures_values': ctx.reals('home', k, 10, 30),
            'water_temperatures_cdf': np.array(cdf), 'water_temperatures_values': ctx.reals('water', k, 30, 70),
            'emitter_setpoints': ctx.real('emit', 30, 70), 'deadband': self.band}
        self.systems = dict(
            equipped_prob=np.ones(s) / s, is_combi=np.array([ctx.bool('combi%d' % i) for i in range(s)]),
            fuel_type=np.array((['Electricity', 'Mainsgas'] * s)[:s]),
            fuel_flow_rate=ctx.reals('flow', s, 0, 4), flow_rate_to_W=ctx.reals('to_W', s, 0, 40000),
            heat_output_sh=ctx.reals('max_sh', s, 0, 30000), heat_output_dhw=ctx.reals('max_dhw', s, 0, 30000),
            standby_power=ctx.reals('standby', s, 0, 50), pump_power=ctx.reals('pump', s, 0, 50),
            cyl_volume=ctx.reals('vol', s, 1, 200), cyl_loss=ctx.reals('loss', s, 0, 5))
        self.buildings = dict(
            equipped_prob=np.ones(b) / b, emitters_target_temperature=ctx.reals('nom', b, 40, 60),
            emitters_capacitance=ctx.reals('C_em', b, 100, 10000), emitters_transfer_coef=ctx.reals('H_em', b, 0, 300),
            ext_capacitance=ctx.reals('C_b', b, 100, 10000), int_capacitance=ctx.reals('C_i', b, 100, 10000),
            build_int_transfer_coef=ctx.reals('H_bi', b, 1, 300), out_build_transfer_coef=ctx.reals('H_ob', b, 1, 300),
            ventilation_transfer_coef=ctx.reals('H_v', b, 0, 300), floor_area=ctx.reals('area', b, 1, 200),
            irradiance_multiplier=ctx.reals('irr', b, 0, 10))
        if nominal:
            nominal(self, np)

    def load_thermostat_dict(self, subgroup={}):
        return self.thermo

    def load_heating_system_dict(self, subgroup={}):
        return self.systems

    def load_buildings_dict(self, subgroup={}):
        return self.buildings


def simple(ctx, n):
    """Concrete systems and buildings, symbolic set points and dead-bands."""
    np = ctx.np

    class Simple(Data):
        def __init__(self):
            self.band = {q: ctx.real('band_' + q, 0, 10) for q in KINDS}
            self.thermo = {
                'home_temperatures_cdf': np.array([1.]), 'home_temperatures_values': ctx.reals('home', 1, 10, 30),
                'water_temperatures_cdf': np.array([1.]), 'water_temperatures_values': ctx.reals('water', 1, 30, 70),
                'emitter_setpoints': ctx.real('emit', 30, 70), 'deadband': self.band}
            one = np.ones(1)
            self.systems = dict(equipped_prob=one, is_combi=np.array([False]), fuel_type=np.array(['Electricity']),
                                fuel_flow_rate=one * 2, flow_rate_to_W=one * 2000, heat_output_sh=one * 4096,
                                heat_output_dhw=one * 4096, standby_power=one * 10, pump_power=one * 20,
                                cyl_volume=one * 128, cyl_loss=one)
            self.buildings = dict(equipped_prob=one, emitters_target_temperature=one * 50, emitters_capacitance=one * 65536,
                                  emitters_transfer_coef=one * 64, ext_capacitance=one * 1048576,
                                  int_capacitance=one * 262144, build_int_transfer_coef=one * 256,
                                  out_build_transfer_coef=one * 256, ventilation_transfer_coef=one * 64,
                                  floor_area=one * 100, irradiance_multiplier=one * 2)
    return Simple()


def temps(ctx, name, n):
    return {q: ctx.reals('%s_%s' % (name, q), n, -20, 120) for q in ('cylinder', 'interior', 'emitter')}


def decided(ctx, before, t, target, band, after):
    """The thermostat rule."""
    return ctx.And(ctx.Implies(t < target - band, after), ctx.Implies(t > target + band, ctx.Not(after)),
                   ctx.Implies(ctx.And(t > target - band, t < target + band), ctx.Iff(before, after)))


@harness(H, 'hysteresis', 'all temperatures, set points, dead-bands, new set points (arrays, dictionaries, none) for n '
         'households, T steps', quick=[dict(n=2, T=2)], thorough=[dict(n=3, T=3)])
def hysteresis(ctx, n, T):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = simple(ctx, n)
    start = ctx.choice('initial', [True, False])
    t0 = temps(ctx, 't0', n) if start else None
    sim = hs.Thermostats(n, initial_temperatures=t0, data=data)
    targets = {k: np.array(v) for k, v in sim.get_target_temperatures().items()}
    ctx.check(ctx.And(ctx.eq(targets['space_heating'], [data.thermo['home_temperatures_values'][0]] * n),
                      ctx.eq(targets['dhw'], [data.thermo['water_temperatures_values'][0]] * n),
                      ctx.eq(targets['emitter'], [data.thermo['emitter_setpoints']] * n)), 'set points of the data')
    state = {q: np.array(v) for q, v in sim.get_thermostat_states().items()}
    ctx.check(sorted(state) == sorted(KINDS), 'one thermostat per component')
    for q, (part, goal) in KINDS.items():
        for i in range(n):
            if start:
                ctx.check(ctx.Implies(t0[part][i] > targets[goal][i], ctx.Not(state[q][i])), 'initially off when warm')
                ctx.check(ctx.Implies(t0[part][i] < targets[goal][i], state[q][i]), 'initially on when cold')
            else:
                ctx.check(ctx.Not(state[q][i]), 'initially off')
    for s in range(1, T + 1):
        t = temps(ctx, 't%d' % s, n)
        kept = {k: np.array(v) for k, v in t.items()}
        how = ctx.choice('how%d' % s, ['none', 'array', 'dict'])
        given = {}
        if how == 'array':
            given = {'space_heating': ctx.gaps('new%d' % s, n, 10, 30)}
        elif how == 'dict':
            given = {'dhw': ctx.gaps('newd%d' % s, n, 30, 70), 'emitter': ctx.reals('newe%d' % s, n, 30, 70)}
        old = {k: np.array(v) for k, v in given.items()}
        if how == 'none':
            sim.step(t)
        else:
            sim.step(t, given['space_heating'] if how == 'array' else given)
        for k, v in given.items():
            ctx.check(ctx.eq(v, old[k]), "caller's set points unaltered")
            for i in range(n):
                targets[k][i] = targets[k][i] if isinstance(v[i], float) and v[i] != v[i] else v[i]
        now = sim.get_target_temperatures()
        for k in targets:
            ctx.check(ctx.eq(now[k], targets[k]), 'set points replaced where they are given')
        new = {q: np.array(v) for q, v in sim.get_thermostat_states().items()}
        for q, (part, goal) in KINDS.items():
            ctx.check(ctx.eq(t[part], kept[part]), 'temperatures unaltered')
            for i in range(n):
                ctx.check(decided(ctx, state[q][i], t[part][i], targets[goal][i], data.band[q], new[q][i]),
                          'thermostat decision: ' + q)
        state = new


@harness(H, 'setpoints', 'all pairs of draws for k possible set points', quick=[dict(n=2, k=3)], thorough=[dict(n=3, k=4)])
def setpoints(ctx, n, k):
    hs = ctx.mod('simulators.heating_simulators')
    data = simple(ctx, n)
    home, water = ctx.reals('homes', k, 10, 30), ctx.reals('waters', k, 30, 70)
    cdf = ctx.np.cumsum(ctx.np.array(ctx.pdf('pdf', k)))
    cdf2 = ctx.np.cumsum(ctx.np.array(ctx.pdf('pdf2', k)))
    data.thermo.update(home_temperatures_values=home, water_temperatures_values=water, home_temperatures_cdf=cdf,
                       water_temperatures_cdf=cdf2)
    sim = hs.Thermostats(n, data=data)
    goals = sim.get_target_temperatures()
    for i in range(n):
        for key, vals in (('space_heating', home), ('dhw', water)):
            ctx.check(ctx.Or(*[goals[key][i] == v for v in vals]), 'a possible set point')
    # a set point of probability one is always taken
    for key, vals, pdf in (('space_heating', home, cdf), ('dhw', water, cdf2)):
        for j in range(k):
            p = pdf[j] - (pdf[j - 1] if j else 0)
            for i in range(n):
                ctx.check(ctx.Implies(p == 1, goals[key][i] == vals[j]), 'a certain set point')


@harness(H, 'controls', 'all thermostat states, demands, combi boilers and external cylinders for n households',
         quick=[dict(n=2)], thorough=[dict(n=3)])
def controls(ctx, n):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    combi = ctx.bools('combi', n)
    given = ctx.choice('given', [True, False])
    sim = hs.SystemControls(n, combi) if given else hs.SystemControls(n)
    c = sim.get_controls()
    ctx.check(ctx.And(*[ctx.Not(e) for k in c for e in c[k]]), 'all off at the beginning')
    for s in range(2):
        th = {q: ctx.bools('%s%d' % (q, s), n) for q in KINDS}
        kept = {q: np.array(v) for q, v in th.items()}
        dhw = ctx.reals('dhw%d' % s, n, 0, 100)
        cyl = ctx.choice('cyl%d' % s, [True, False])
        ext = ctx.bools('ext%d' % s, n)
        if cyl:
            sim.step(dhw, th, ext)
        else:
            sim.step(dhw, th)
        c = sim.get_controls()
        for q in th:
            ctx.check(ctx.eq(th[q], kept[q]), 'thermostats unaltered')
        for i in range(n):
            own = ctx.Or(combi[i] if given else False, ext[i] if cyl else False)
            ctx.check(ctx.Iff(c['heat_water_on'][i], ctx.Or(ctx.And(own, dhw[i] > 0), ctx.And(ctx.Not(own), th['hot_water'][i]))),
                      'hot water control')
            ctx.check(ctx.Iff(c['space_heating_on'][i], ctx.And(th['space_heating'][i], th['emitter'][i])),
                      'space heating control')
            ctx.check(ctx.Iff(c['heater_on'][i], ctx.Or(c['heat_water_on'][i], c['space_heating_on'][i])), 'heater control')


def inputs(ctx, n, s=''):
    return dict(outside_temperature=ctx.real('out' + s, -20, 40), irradiance=ctx.real('sun' + s, 0, 1000),
                dhw_heating_demand=ctx.reals('draw' + s, n, 0, 100),
                occupancy_thermal_gains=ctx.reals('occ' + s, n, 0, 500),
                lighting_thermal_gains=ctx.reals('lit' + s, n, 0, 500),
                appliances_thermal_gains=ctx.reals('app' + s, n, 0, 500))


@harness(H, 'external', 'all temperatures, set points, partial external set points and cylinder temperatures for n '
         'households, 2 steps of the complete heating simulation', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def external(ctx, n):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = simple(ctx, n)
    sim = hs.FiveModulesHeatingSimulator(n, 5., data=data)
    for k in ('interior', 'cylinder', 'emitter', 'building'):
        sim.building_sim.temperatures[k] = ctx.reals('T_' + k, n, 0, 80)
    state = {q: np.array([False] * n) for q in KINDS}
    targets = {k: np.array(v) for k, v in sim.get_target_temperatures().items()}
    for s in range(2):
        with_t = ctx.choice('ext%d' % s, [True, False])
        with_c = ctx.choice('cyl%d' % s, [True, False])
        kw = {}
        nan = [True] * n
        if with_t:
            kw['external_target_temperature'] = new = ctx.gaps('set%d' % s, n, 10, 30)
            for i in range(n):
                if not (isinstance(new[i], float) and new[i] != new[i]):
                    targets['space_heating'][i] = new[i]
        if with_c:
            kw['external_cylinder_temperature'] = cyl = ctx.gaps('tank%d' % s, n, 10, 80)
            nan = [isinstance(e, float) and e != e for e in cyl]
        copies = {k: np.array(v) for k, v in kw.items()}
        t = {k: np.array(v) for k, v in sim.get_temperatures().items()}
        d = inputs(ctx, n, str(s))
        sim.step(**d, **kw)
        for k in kw:
            ctx.check(ctx.eq(kw[k], copies[k]), "caller's data unaltered")
        for i in range(n):
            if with_c and not nan[i]:
                t['cylinder'][i] = cyl[i]
        new = {q: np.array(v) for q, v in sim.get_thermostat_states().items()}
        goals = sim.get_target_temperatures()
        c = sim.get_controls()
        for i in range(n):
            ctx.check(goals['space_heating'][i] == targets['space_heating'][i], 'set point of the household')
            for q, (part, goal) in KINDS.items():
                ctx.check(decided(ctx, state[q][i], t[part][i], targets[goal][i], data.band[q], new[q][i]),
                          'thermostat decision in the complete simulation: ' + q)
            water = new['hot_water'][i] if nan[i] else d['dhw_heating_demand'][i] > 0
            ctx.check(ctx.Iff(c['heat_water_on'][i], water), 'hot water follows demand only with an external cylinder')
            ctx.check(ctx.Iff(c['space_heating_on'][i], ctx.And(new['space_heating'][i], new['emitter'][i])),
                      'space heating needs room and emitter')
        state = new
