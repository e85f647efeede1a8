"""Weather from records: the record, or the interpolation, of the current time."""
import contextlib

from symx.run import harness

H = []
NOT_COVERED = ['CREST irradiance and ARMA temperature models (no records; trigonometry and random series)',
               'interpolation kinds other than linear', 'time zones whose offset changes during the simulation',
               'records at irregular intervals', 'fractions of seconds']
ASSUMPTIONS = ['scipy.interpolate.interp1d is linear interpolation that refuses values outside the records',
               'numpy datetime64 arithmetic is exact on whole microseconds',
               'numpy.load returns the records (the parsed file is stood in for)']
ZONES = [None, 0, -5, 2]


def records(ctx, n, interval, unit, kinds, zone, lo, hi):
    """Loader with n records every `interval` minutes and a start between records lo and hi (times interval)."""
    dt, np = ctx.dt, ctx.np
    D = dt.timedelta(minutes=interval)
    base = dt.datetime(2015, 1, 1) + dt.timedelta(minutes=ctx.int('base', 0, 10**6))
    off = ctx.int('off', lo * interval * 60, hi * interval * 60)
    start = base + dt.timedelta(seconds=off)
    if zone is not None:
        start = start.replace(tzinfo=dt.timezone.utc).astimezone(dt.timezone(dt.timedelta(hours=zone)))
    data = {k: ctx.reals(k, n, -50, 1500) for k in kinds}
    times = np.array([base + i * D for i in range(n)], dtype='datetime64[%s]' % unit)
    bl = ctx.mod('datasets.base_loader')
    loader = bl.ClimateLoader.__new__(bl.ClimateLoader)
    loader.step_size, loader.parsed_path_climate, loader.country = D, '/nowhere', 'somewhere'
    file = dict(data, datetime=times)
    return loader, file, data, D, base, off, start


@contextlib.contextmanager
def loaded(ctx, file):
    import scipy.interpolate
    with contextlib.ExitStack() as s:
        s.enter_context(ctx.patched(ctx.np, load=lambda *a, **k: dict(file)))
        if ctx.sym:
            from symx.extras import Interp1d
            s.enter_context(ctx.patched(scipy.interpolate, interp1d=Interp1d))
        yield


def within(ctx, off, i, interval):
    """off lies in the interval of record i"""
    s = interval * 60
    return ctx.And(off >= i * s, off < (i + 1) * s)


@harness(H, 'load', 'all starts from one interval before the first to one after the last of n records, naive and in 3 '
         'time zones; record times of every minute of two years', quick=[dict(n=3, interval=60, unit='m'),
                                                                       dict(n=2, interval=15, unit='s')],
         thorough=[dict(n=5, interval=60, unit='s'), dict(n=3, interval=1440, unit='us')])
def load(ctx, n, interval, unit):
    zone = ctx.choice('zone', ZONES)
    loader, file, data, D, base, off, start = records(ctx, n, interval, unit, ['outside_temperature', 'irradiance'], zone,
                                                      -1, n)
    with loaded(ctx, file):
        raised, out = ctx.raises(lambda: loader.load_historical_climate_data(start), ValueError)
    late = off > (n - 1) * interval * 60
    ctx.check(ctx.Iff(late, raised), 'refused exactly beyond the last record')
    if raised:
        return
    ctx.check(sorted(out) == sorted(file), 'every quantity')
    for i in range(n):
        # record i is the first one
        first = within(ctx, off, i, interval) if i else off < interval * 60
        for k, v in file.items():
            if len(out[k]) != n - i:
                ctx.check(ctx.Not(first), 'number of records')
            elif k == 'datetime':
                ctx.check(ctx.Implies(first, ctx.And(*[out[k][j] == v[i + j] for j in range(n - i)])), 'times')
            else:
                ctx.check(ctx.Implies(first, ctx.And(*[out[k][j] == v[i + j] for j in range(n - i)])), 'records')


@harness(H, 'real', 'all records and all starts, naive and in 3 time zones; T steps of one record each',
         quick=[dict(n=3, interval=60, T=1, kind='irradiance'), dict(n=3, interval=10, T=2, kind='radiation_global')],
         thorough=[dict(n=5, interval=15, T=4, kind='irradiance')])
def real(ctx, n, interval, T, kind):
    zone = ctx.choice('zone', ZONES)
    loader, file, data, D, base, off, start = records(ctx, n, interval, 'm', ['outside_temperature', kind], zone, -1, n)
    ws = ctx.mod('simulators.weather_simulators')
    with loaded(ctx, file):
        raised, sim = ctx.raises(lambda: ws.RealClimate(loader, start_datetime=start), ValueError)
        ctx.check(ctx.Iff(ctx.Or(off < 0, off > (n - 1) * interval * 60), raised), 'refused exactly outside the records')
        if raised:
            return
        ctx.check(sim.current_time == start, 'starts at the requested time')
        for t in range(T + 1):
            now = off + t * interval * 60
            if t:
                ended, _ = ctx.raises(lambda: sim.step(), StopIteration)
                ctx.check(ctx.Iff(now >= n * interval * 60, ended), 'runs until the records end')
                if ended:
                    return
                ctx.check(sim.current_time == start + t * D, 'clock')
            for i in range(n):
                ctx.check(ctx.Implies(within(ctx, now, i, interval), ctx.And(
                    sim.get_outside_temperature() == data['outside_temperature'][i], sim.get_irradiance() == data[kind][i])),
                    'record of the current time')


@harness(H, 'interp', 'all records, starts and step sizes of whole seconds up to 4 record intervals, naive and in 2 time '
         'zones; T steps', quick=[dict(n=2, interval=60, T=1, unit='m', zones=[None, -5, 2]),
                                  dict(n=3, interval=10, T=2, unit='s', zones=[None])],
         thorough=[dict(n=4, interval=60, T=3, unit='m', zones=[2])])
def interp(ctx, n, interval, T, unit, zones):
    zone = ctx.choice('zone', zones)
    loader, file, data, D, base, off, start = records(ctx, n, interval, unit, ['outside_temperature', 'irradiance'], zone,
                                                      -1, n)
    step = ctx.int('step', 1, 4 * interval * 60)
    ws = ctx.mod('simulators.weather_simulators')
    end = (n - 1) * interval * 60
    with loaded(ctx, file):
        raised, sim = ctx.raises(lambda: ws.RealInterpolatedClimate(
            loader, start_datetime=start, step_size=ctx.dt.timedelta(seconds=step)), ValueError)
        ctx.check(ctx.Iff(ctx.Or(off < 0, off > end), raised), 'refused exactly outside the records')
        if raised:
            return
        for t in range(T + 1):
            now = off + t * step
            if t:
                ended, _ = ctx.raises(lambda: sim.step(), ValueError)
                ctx.check(ctx.Iff(now > end, ended), 'runs until the records end')
                if ended:
                    return
            ctx.check(sim.current_time == start + ctx.dt.timedelta(seconds=t * step), 'clock')
            for k, v in data.items():
                got = getattr(sim, 'get_' + k)() + 0.
                for i in range(n - 1):
                    s = interval * 60
                    x = now - i * s
                    ctx.check(ctx.Implies(ctx.And(x >= 0, x <= s), ctx.close(got, v[i] + (v[i + 1] - v[i]) * x / s, 1e-6)),
                              'interpolation at the current time')
