"""Energy balance of the building and heat demand."""
import datetime as _dt

from symx.run import harness
from harness.c18 import Data, simple, inputs, KINDS

H = []
NOT_COVERED = ["the 'room_estimation' heat demand, which is an estimation without a stated result",
               'rounding of floating point numbers (the balance is exact up to 1e-6 of the terms)']
PARTS = ('building', 'interior', 'emitter', 'cylinder')


def flows(ctx, g, T, d, heat):
    """Heat flows (W) towards each part of one household, from its temperatures before the step."""
    b, i, e, c = (T[k] for k in PARTS)
    wall, room = g['H_bi'] * (i - b), g['H_em'] * (e - i)
    tank = g['loss'] * (c - i)
    out_b, out_i = g['H_ob'] * (b - d['out']), g['H_v'] * (i - d['out'])
    drawn = d['draw'] * (c - 10)
    gain = d['sun'] * g['irr'] + d['occ'] + d['lit'] + d['app']
    parts = {'building': wall - out_b, 'interior': room + tank - wall - out_i + gain, 'emitter': heat['space_heating'] - room,
             'cylinder': heat['dhw'] - tank - drawn}
    return parts, heat['space_heating'] + heat['dhw'] + gain - out_b - out_i - drawn


def coefs(data, u, t):
    b, s = data.buildings, data.systems
    return dict(H_bi=b['build_int_transfer_coef'][u], H_ob=b['out_build_transfer_coef'][u], H_em=b['emitters_transfer_coef'][u],
                H_v=b['ventilation_transfer_coef'][u], irr=b['irradiance_multiplier'][u], loss=s['cyl_loss'][t],
                C=dict(building=b['ext_capacitance'][u], interior=b['int_capacitance'][u], emitter=b['emitters_capacitance'][u],
                       cylinder=s['cyl_volume'][t] * 4200))


def household(d, i):
    return dict(out=d['outside_temperature'], sun=d['irradiance'], draw=d['dhw_heating_demand'][i],
                occ=d['occupancy_thermal_gains'][i], lit=d['lighting_thermal_gains'][i], app=d['appliances_thermal_gains'][i])


def balance(ctx, g, before, after, d, heat, secs):
    parts, total = flows(ctx, g, before, d, heat)
    for k in PARTS:
        ctx.check(ctx.close(g['C'][k] * (after[k] - before[k]), secs * parts[k], 1e-6), 'energy balance: ' + k)
    ctx.check(ctx.close(ctx.sum([g['C'][k] * (after[k] - before[k]) for k in PARTS]), secs * total, 1e-6), 'total energy balance')


STEPS = [1, 30, 60, 600, 3600]


class Duration:
    """A step size of any number of seconds."""

    def __init__(self, secs):
        self.secs = secs

    def total_seconds(self):
        return self.secs


def duration(ctx, any_step, options):
    if any_step:
        secs = ctx.real('step', 1, 3600)
        return secs, Duration(secs)
    secs = ctx.choice('step', options)
    return secs, _dt.timedelta(seconds=secs)


@harness(H, 'building', 'all coefficients of 2 buildings and systems, temperatures, gains, draws and heat inputs of n '
         'households, step sizes of %s s, or any from 1 s to 1 h' % STEPS, quick=[dict(n=1), dict(n=2), dict(n=1, any_step=True)], thorough=[dict(n=3), dict(n=2, any_step=True)])
def building(ctx, n, any_step=False):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = Data(ctx, s=2, b=2)
    data.systems['equipped_prob'] = np.array(ctx.pdf('types', 2))
    data.buildings['equipped_prob'] = np.array(ctx.pdf('btypes', 2))
    secs, step = duration(ctx, any_step, STEPS)
    system = hs.HeatingSystem(n, data=data)
    sim = hs.BuildingThermalDynamics(n, system, 5., data=data, step_size=step,
                                     target_temperatures=ctx.reals('goal', n, 10, 30))
    start = {k: ctx.reals('T_' + k, n, -20, 100) for k in PARTS}
    sim.temperatures.update({k: np.array(v) for k, v in start.items()})
    d = inputs(ctx, n)
    heat = {k: ctx.reals('Q_' + k, n, 0, 30000) for k in ('dhw', 'space_heating')}
    heat['total'] = heat['dhw'] + heat['space_heating']
    copies = {k: np.array(v) for k, v in list(d.items()) + list(heat.items())}
    sim.step(heat_outputs=heat, **d)
    for k, v in list(d.items()) + list(heat.items()):
        ctx.check(ctx.eq(v, copies[k]), "caller's data unaltered")
    now = sim.get_temperatures()
    for i in range(n):
        g = coefs(data, sim.building_types[i], system.heating_types[i])
        balance(ctx, g, {k: start[k][i] for k in PARTS}, {k: now[k][i] for k in PARTS}, household(d, i),
                {k: v[i] for k, v in heat.items()}, secs)


@harness(H, 'demand', 'all capacitances, coefficients, temperatures, set points, dead-bands and draws of n households, step sizes of '
         '%s s, or any from 1 s to 1 h' % STEPS, quick=[dict(n=1), dict(n=2), dict(n=1, any_step=True)], thorough=[dict(n=3), dict(n=2, any_step=True)])
def demand(ctx, n, any_step=False):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = Data(ctx, k=1)
    secs, step = duration(ctx, any_step, STEPS)
    sim = hs.FiveModulesHeatingSimulator(n, 5., data=data, step_size=step)
    start = {k: ctx.reals('T_' + k, n, -20, 100) for k in PARTS}
    start['cold_water'] = 10.
    d = inputs(ctx, n)
    goals = {'dhw': ctx.reals('g_dhw', n, 30, 70), 'space_heating': ctx.reals('g_sh', n, 10, 30), 'emitter': ctx.reals('g_em', n, 30, 70)}
    sim.heatdemand_sim.step({k: np.array(v) for k, v in start.items()}, goals, d['dhw_heating_demand'], d['outside_temperature'])
    q = sim.heatdemand_sim.get_heat_demand()
    sim.building_sim.temperatures.update({k: np.array(start[k]) for k in PARTS})
    sim.building_sim.step(heat_outputs={k: np.array(q[k]) for k in ('dhw', 'space_heating')}, **d)
    now = sim.building_sim.get_temperatures()
    for i in range(n):
        ctx.check(ctx.close(now['emitter'][i], goals['emitter'][i] + data.band['emitter'], 1e-6), 'emitters reach their set point')
        ctx.check(ctx.close(now['cylinder'][i], goals['dhw'][i] + data.band['hot_water'], 1e-6), 'cylinder reaches its set point')


@harness(H, 'complete', 'all temperatures, set points, gains, draws and step sizes for n households, T steps of the complete '
         'heating simulation', quick=[dict(n=1, T=1), dict(n=2, T=1), dict(n=1, T=2)], thorough=[dict(n=2, T=2), dict(n=1, T=1, any_step=True)])
def complete(ctx, n, T, any_step=False):
    np = ctx.np
    hs = ctx.mod('simulators.heating_simulators')
    data = simple(ctx, n)
    secs, step = duration(ctx, any_step, [1, 60, 600])
    sim = hs.FiveModulesHeatingSimulator(n, ctx.real('T0', -20, 40), data=data, step_size=step)
    first = sim.get_temperatures()
    goal = sim.get_target_temperatures()['space_heating']
    for i in range(n):
        ctx.check(ctx.And(first['interior'][i] >= goal[i] - 1, first['interior'][i] <= goal[i] + 1), 'rooms start near their set point')
    for k in PARTS:
        sim.building_sim.temperatures[k] = ctx.reals('T_' + k, n, -20, 100)
    for s in range(T):
        before = {k: np.array(sim.get_temperatures()[k]) for k in PARTS}
        goals = {k: np.array(v) for k, v in sim.get_target_temperatures().items()}
        d = inputs(ctx, n, str(s))
        sim.step(**d)
        now, heat, con = sim.get_temperatures(), sim.get_heat_outputs(), sim.get_controls()
        total, water, space = sim.get_total_heat_demand(), sim.get_dhw_heat_demand(), sim.get_sh_heat_demand()
        room = sim.get_room_temperature()
        for i in range(n):
            g = coefs(data, 0, 0)
            mine = {k: before[k][i] for k in PARTS}
            balance(ctx, g, mine, {k: now[k][i] for k in PARTS}, household(d, i), {k: v[i] for k, v in heat.items()}, secs)
            ctx.check(room[i] == now['interior'][i], 'room temperature')
            # the demand for this step
            only_h = {'space_heating': space[i], 'dhw': water[i]}
            flow, _ = flows(ctx, g, mine, household(d, i), only_h)
            for part, quantity, key, on in (('emitter', 'emitter', 'emitter', con['space_heating_on'][i]),
                                            ('cylinder', 'hot_water', 'dhw', con['heat_water_on'][i])):
                goal = goals[key][i] + data.band[quantity]
                ctx.check(ctx.Implies(on, ctx.close(mine[part] + secs * flow[part] / g['C'][part], goal, 1e-6)),
                          'the demand brings the %s to its set point' % part)
            ctx.check(ctx.And(ctx.Implies(ctx.Not(con['space_heating_on'][i]), space[i] == 0),
                              ctx.Implies(ctx.Not(con['heat_water_on'][i]), water[i] == 0)), 'no demand when not requested')
            ctx.check(ctx.close(total[i], water[i] + space[i], 1e-6), 'total heat demand')
