"""Heating system outputs, their accounts and externally imposed outputs."""
from symx.run import harness
from harness.c18 import Data, simple, inputs, temps

H = []
NOT_COVERED = ['other fuels than mains gas and electricity (none is implemented)']
NAMES = ('heater_on', 'heat_water_on', 'space_heating_on')


def isnan(v):
    return isinstance(v, float) and v != v


def capacities(ctx, data, kind):
    """Make the systems of the data concrete up to zero capacities and rates (kind 'any' keeps them symbolic)."""
    np = ctx.np
    if kind == 'any':
        return
    sh, dhw, rate = {'usual': (3600., 5925., 1.5), 'no_water': (4096., 0., 2.), 'no_space': (0., 2048., 2.),
                     'none': (0., 0., 0.), 'more_space': (8192., 4096., 2.5)}[kind]
    s = len(data.systems['equipped_prob'])
    data.systems.update(heat_output_sh=np.array([sh, 21750.][:s]), heat_output_dhw=np.array([dhw, 21750.][:s]),
                        fuel_flow_rate=np.array([rate, 2.61][:s]), flow_rate_to_W=np.array([rate * 1000, 29000.][:s]))


def kept(np, d):
    return {k: np.array(v) for k, v in d.items()}


@harness(H, 'outputs', 'all capacities of 2 systems, their attribution, all demands and controls of n households, 2 steps',
         quick=[dict(n=2)], thorough=[dict(n=3)])
def outputs(ctx, n):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = Data(ctx, s=2)
    data.systems['equipped_prob'] = np.array(ctx.pdf('types', 2))
    sim = hs.HeatingSystem(n, data=data)
    ctx.check(ctx.And(*[e == 0 for k in ('dhw', 'space_heating', 'total') for e in sim.get_heat_outputs()[k]]), 'nothing at first')
    for s in range(2):
        con = {k: ctx.bools('%s%d' % (k, s), n) for k in NAMES}
        want = {k: ctx.reals('%s%d' % (k, s), n, -50000, 50000) for k in ('dhw', 'space_heating')}
        kc, kw = kept(np, con), kept(np, want)
        sim.step(con, want)
        out = sim.get_heat_outputs()
        for k in NAMES:
            ctx.check(ctx.eq(con[k], kc[k]), 'controls unaltered')
        for k in want:
            ctx.check(ctx.eq(want[k], kw[k]), 'demand unaltered')
        for i in range(n):
            t = sim.heating_types[i]
            msh, mdhw = data.systems['heat_output_sh'][t], data.systems['heat_output_dhw'][t]
            w, h, tot = out['dhw'][i], out['space_heating'][i], out['total'][i]
            on = {k: con[k][i] for k in NAMES}
            ctx.check(ctx.And(w >= 0, h >= 0), 'never negative')
            ctx.check(ctx.close(tot, w + h), 'total of the two outputs')
            ctx.check(tot <= ctx.ite(mdhw > msh, mdhw, msh) * (1 + 1e-9), 'within the capacity')
            ctx.check(ctx.And(w <= mdhw, h <= msh), 'within each capacity')
            ctx.check(ctx.And(ctx.Implies(ctx.Not(ctx.And(on['heater_on'], on['heat_water_on'])), w == 0),
                              ctx.Implies(ctx.Not(ctx.And(on['heater_on'], on['space_heating_on'])), h == 0)), 'nothing unrequested')
            d, sp = kw['dhw'][i], kw['space_heating'][i]
            ctx.check(ctx.And(ctx.Or(w == 0, w <= d), ctx.Or(h == 0, h <= sp)), 'no more than demanded')
            # hot water is served first, the rest as far as the system can
            full = ctx.ite(d < 0, 0, ctx.ite(d > mdhw, mdhw, d))
            ctx.check(ctx.Implies(ctx.And(on['heater_on'], on['heat_water_on']), w == full), 'hot water first')
            left = ctx.ite(on['heat_water_on'], msh - w, msh)
            left = ctx.ite(left < 0, 0, left)
            goal = ctx.ite(sp < 0, 0, ctx.ite(sp > left, left, sp))
            ctx.check(ctx.Implies(ctx.And(on['heater_on'], on['space_heating_on']), ctx.close(h, goal)), 'space heating with the rest')


@harness(H, 'accounts', 'all outputs, pump and standby powers, controls and fuels of n households, of systems with and without '
         'hot water, space heating or any heating', quick=[dict(n=1, kind='usual'), dict(n=2, kind='usual'), dict(n=2, kind='no_water'),
                                                            dict(n=2, kind='no_space'), dict(n=2, kind='none')],
         thorough=[dict(n=2, kind='more_space'), dict(n=3, kind='usual'), dict(n=1, kind='any')])
def accounts(ctx, n, kind):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = Data(ctx, s=2)
    capacities(ctx, data, kind)
    if kind == 'any':
        for k in ('heat_output_sh', 'heat_output_dhw', 'fuel_flow_rate'):
            data.systems[k] = ctx.reals('pos_' + k, 2, 1, 8)
        data.systems['flow_rate_to_W'] = ctx.reals('pos_w', 2, 1, 8)
    fuels = [ctx.choice('fuel%d' % i, ['Electricity', 'Mainsgas']) for i in range(2)]
    data.systems['fuel_type'] = np.array(fuels)
    data.systems['equipped_prob'] = np.array(ctx.pdf('types', 2))
    sim = hs.HeatingSystem(n, data=data)
    types = list(sim.heating_types)
    con = {k: ctx.bools(k, n) for k in NAMES}
    want = {k: ctx.reals(k, n, 0, 10) if kind == 'any' else ctx.reals(k, n, -50, 50000) for k in ('dhw', 'space_heating')}
    # nothing else than what controls and demands can give
    sim.step(con, want)
    out = sim.get_heat_outputs()
    fuel = sim.get_fuel_consumptions()
    power = sim.get_power_demand()
    energy = sim.get_energy_consumption()
    ctx.check(set(fuel) == {fuels[t] for t in types}, 'the fuels in use')
    for i, t in enumerate(types):
        g = {k: v[t] for k, v in data.systems.items()}
        pump = ctx.ite(con['space_heating_on'][i], g['pump_power'], g['standby_power'])
        msh, mdhw = g['heat_output_sh'], g['heat_output_dhw']
        parts = [o / m for o, m in ((out['space_heating'][i], msh), (out['dhw'][i], mdhw)) if not (kind != 'any' and m == 0)]
        share = ctx.sum(parts) if parts else 0
        on = con['heater_on'][i]
        for f in fuel:
            if f != fuels[t]:
                ctx.check(fuel[f][i] == 0, 'no fuel of another kind')
            elif f == 'Electricity':
                ctx.check(ctx.Implies(on, ctx.close(fuel[f][i], g['fuel_flow_rate'] * 1000 * share, 1e-6)),
                          'electricity proportional to the heat')
                ctx.check(ctx.Implies(ctx.Not(on), fuel[f][i] == 0), 'nothing consumed when off')
            else:
                ctx.check(ctx.Implies(on, ctx.close(fuel[f][i] * 3600, g['fuel_flow_rate'] * share, 1e-6)),
                          'gas flow per second proportional to the heat')
                ctx.check(ctx.Implies(ctx.Not(on), fuel[f][i] == 0), 'nothing consumed when off')
        elec = fuel['Electricity'][i] if 'Electricity' in fuel else 0
        ctx.check(ctx.close(power[i], pump + elec, 1e-6), 'power is the pump and the electricity')
        gas = g['flow_rate_to_W'] * share if fuels[t] == 'Mainsgas' else 0
        ctx.check(ctx.Implies(on, ctx.close(energy[i], pump + elec + gas, 1e-6)), 'energy of the fuel used')
        ctx.check(ctx.Implies(ctx.Not(on), ctx.close(energy[i], pump, 1e-6)), 'only the pump when off')


@harness(H, 'attribution', 'all parameters of 3 systems and 2 buildings, all draws of n households',
         quick=[dict(n=2)], thorough=[dict(n=3)])
def attribution(ctx, n):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = Data(ctx, s=3, b=2)
    data.systems['equipped_prob'] = np.array(ctx.pdf('types', 3))
    data.buildings['equipped_prob'] = np.array(ctx.pdf('btypes', 2))
    sim = hs.HeatingSystem(n, data=data)
    b = hs.BuildingThermalDynamics(n, sim, 5., data=data, target_temperatures=ctx.reals('goal', n, 10, 30))
    s = data.systems
    for i in range(n):
        t = sim.heating_types[i]
        mine = {'pump_power': sim.dblP_pump, 'standby_power': sim.dblP_standby, 'fuel_flow_rate': sim.dblFuelFlowRate,
                'flow_rate_to_W': sim.flow_rate_to_W, 'heat_output_sh': sim.max_Phi_h_space, 'heat_output_dhw': sim.max_Phi_h_dhw,
                'cyl_loss': sim.h_loss, 'is_combi': sim.is_combi_boiler}
        ctx.check(s['equipped_prob'][t] > 0, 'a system in use')
        ctx.check(ctx.And(*[v[i] == s[k][t] for k, v in mine.items()]), 'all characteristics of one system')
        ctx.check(sim.fuel_types[i] == s['fuel_type'][t], 'fuel of the system')
        ctx.check(ctx.close(sim.C_cyl[i], s['cyl_volume'][t] * 4200, 1e-6), 'heat capacity of the cylinder')
        ctx.check(ctx.And(b.H_cyl_loss[i] == sim.h_loss[i], b.C_cyl[i] == sim.C_cyl[i]), 'cylinder of the system in the building')
        u = b.building_types[i]
        mine = {'emitters_capacitance': b.C_em, 'emitters_transfer_coef': b.H_em, 'ext_capacitance': b.C_b,
                'int_capacitance': b.C_i, 'build_int_transfer_coef': b.H_bi, 'out_build_transfer_coef': b.H_ob,
                'ventilation_transfer_coef': b.H_v, 'floor_area': b.building_area,
                'irradiance_multiplier': b.irradiance_multiplier, 'emitters_target_temperature': b.emitters_nominal_temperature}
        ctx.check(data.buildings['equipped_prob'][u] > 0, 'a building in use')
        ctx.check(ctx.And(*[v[i] == data.buildings[k][u] for k, v in mine.items()]), 'all characteristics of one building')


@harness(H, 'imposed', 'all partial external outputs (array, dictionary, hot water and space heating, none) for n households, '
         'steps of the complete heating simulation', quick=[dict(n=2, T=1), dict(n=1, T=2)], thorough=[dict(n=2, T=2)])
def imposed(ctx, n, T):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = simple(ctx, n)
    sim = hs.FiveModulesHeatingSimulator(n, 5., data=data)
    for k in ('interior', 'cylinder', 'emitter', 'building'):
        sim.building_sim.temperatures[k] = ctx.reals('T_' + k, n, 0, 80)
    received = {}

    def record(*a, heat_outputs=None, **k):
        received.clear()
        received.update(kept(np, heat_outputs))
    sim.building_sim.step = record
    for s in range(T):
        how = ctx.choice('how%d' % s, ['none', 'array', 'dict', 'both'])
        kw = {}
        if how == 'array':
            kw['external_heat_outputs'] = ctx.gaps('all%d' % s, n, 0, 10000)
        elif how == 'dict':
            kw['external_heat_outputs'] = {'dhw': ctx.gaps('ed%d' % s, n, 0, 10000)}
            kw['external_sh_outputs'] = ctx.reals('es%d' % s, n, 0, 10000)
        elif how == 'both':
            kw['external_heat_outputs'] = {'dhw': ctx.reals('ed%d' % s, n, 0, 10000), 'space_heating': ctx.reals('eh%d' % s, n, 0, 10000)}
            kw['external_dhw_outputs'] = ctx.gaps('ew%d' % s, n, 0, 10000)
        copies = {k: kept(np, v) if isinstance(v, dict) else np.array(v) for k, v in kw.items()}
        d = inputs(ctx, n, str(s))
        sim.step(**d, **kw)
        for k, v in kw.items():
            if isinstance(v, dict):
                ctx.check(list(v) == list(copies[k]), "caller's dictionary unaltered")
                for q in v:
                    if q in copies[k]:
                        ctx.check(ctx.eq(v[q], copies[k][q]), "caller's data unaltered")
            else:
                ctx.check(ctx.eq(v, copies[k]), "caller's data unaltered")
        c = sim.get_controls()
        own = hs.HeatingSystem.get_heat_outputs(sim.heatingsystem)
        demand = sim.heatdemand_sim.get_heat_demand()
        msh, mdhw = sim.heatingsystem.max_Phi_h_space, sim.heatingsystem.max_Phi_h_dhw
        out = sim.get_heat_outputs()
        power = sim.get_power_demand()
        for i in range(n):
            w = h = None
            if how == 'dict':
                w, h = copies['external_heat_outputs']['dhw'][i], copies['external_sh_outputs'][i]
            elif how == 'both':
                w, h = copies['external_dhw_outputs'][i], copies['external_heat_outputs']['space_heating'][i]
                w = copies['external_heat_outputs']['dhw'][i] if isnan(w) else w
            w, h = (None if isnan(w) else w), (None if isnan(h) else h)
            if how == 'array' and not isnan(copies['external_heat_outputs'][i]):
                e = copies['external_heat_outputs'][i]
                ctx.check(ctx.close(out['dhw'][i] + out['space_heating'][i], e, 1e-6), 'the imposed heat is split')
                ctx.check(ctx.And(out['dhw'][i] >= -1e-6, out['space_heating'][i] >= -1e-6), 'split in two positive parts')
                given = True
            else:
                given = w is not None or h is not None
                # what is not given is what the heating system gives by itself
                dw, ds = demand['dhw'][i], demand['space_heating'][i]
                on = c['heater_on'][i]
                full = ctx.ite(dw < 0, 0, ctx.ite(dw > mdhw[i], mdhw[i], dw))
                full = ctx.ite(ctx.And(on, c['heat_water_on'][i]), full, 0)
                left = msh[i] - full
                goal = ctx.ite(ctx.Or(ds < 0, left < 0), 0, ctx.ite(ds > left, left, ds))
                goal = ctx.ite(ctx.And(on, c['space_heating_on'][i]), goal, 0)
                ctx.check(ctx.close(out['dhw'][i], full if w is None else w, 1e-6), 'hot water output')
                ctx.check(ctx.close(out['space_heating'][i], goal if h is None else h, 1e-6), 'space heating output')
            ctx.check(ctx.close(out['total'][i], out['dhw'][i] + out['space_heating'][i], 1e-6), 'total of the outputs')
            for k in ('dhw', 'space_heating'):
                ctx.check(ctx.close(received[k][i], out[k][i], 1e-6), 'the building receives the outputs')
            if given:
                ctx.check(power[i] == 0, 'no power for an external system')
            else:
                t = (out['dhw'][i] / 4096 + out['space_heating'][i] / 4096) * 2 * 1000
                pump = ctx.ite(c['space_heating_on'][i], 20, 10)
                ctx.check(ctx.close(power[i], pump + ctx.ite(c['heater_on'][i], t, 0), 1e-6), 'power of the own system')
