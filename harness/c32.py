"""CREST weather: sky clearness, sun and outside temperature."""
import math

from symx.run import harness

H = []
NOT_COVERED = ['polar nights and midnight suns', 'temperatures outside daylight, except that they do not jump',
               'parsing of the CREST tables']
ASSUMPTIONS = ['sin, cos, asin, exp and log are evaluated in floating point on the concrete times and places of the bounds']
PLACES = [dict(latitude=52.5, longitude=1.4, meridian=0.), dict(latitude=-33.9, longitude=18.4, meridian=30.),
          dict(latitude=46.2, longitude=6.1, meridian=15.)]


class Data:
    """What the simulators ask from a dataset."""

    def __init__(self, ctx, tpm, values, step, place, dst, arma=None):
        np = ctx.np
        self.tpm, self.values, self.step = np.array(tpm), np.array(values), step
        self.geo = dict(place, country='nowhere', use_daylight_saving_time=dst)
        self.arma = arma

    def load_geographic_data(self):
        return dict(self.geo)

    def load_clearness_tpms(self):
        return self.tpm, self.values, self.step

    def load_temperatures_arma(self):
        return dict(self.arma)


def sun(t, place, dst):
    """(clear sky irradiance of the horizontal surface, is the sun up) at the naive local time t"""
    n = t.timetuple().tm_yday
    B = 2 * math.pi * (n - 81) / 364
    eot = 9.87 * math.sin(2 * B) - 7.53 * math.cos(B) - 1.5 * math.sin(B)
    clock = t.hour * 60 + t.minute - (60 if dst and 87 <= n < 304 else 0)
    solar = clock + 4 * (place['longitude'] - place['meridian']) + eot      # minutes since solar midnight
    hour_angle = math.radians(15 * (12 - solar / 60))
    dec = math.radians(23.45 * math.sin(2 * math.pi * (284 + n) / 365.25))
    lat = math.radians(place['latitude'])
    s = math.cos(lat) * math.cos(dec) * math.cos(hour_angle) + math.sin(lat) * math.sin(dec)
    if s <= 0:
        return 0., False
    space = 1367 * (1 + .034 * math.cos(2 * math.pi * n / 365.25))
    depth = .174 + .035 * math.sin(2 * math.pi * (n - 100) / 365)
    return space * math.exp(-depth / s) * s, True


def plain(t):
    import datetime
    return datetime.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second)


@harness(H, 'clearness', 'all transition probabilities and draws of 3 states over n steps of one minute',
         quick=[dict(n=3, at=0), dict(n=2, at=1)], thorough=[dict(n=4, at=0), dict(n=3, at=2)])
def clearness(ctx, n, at):
    """Clearness moves along transitions of positive probability only."""
    W = ctx.mod('simulators.weather_simulators')
    dt = ctx.dt
    tpm = [ctx.pdf('p%d' % i, 3) for i in range(3)]
    values = [.1, .5, 1.]
    first = ctx.choice('first', values)
    data = Data(ctx, tpm, values, dt.timedelta(minutes=1), PLACES[0], True)
    sim = W.CrestIrradianceSimulator(data, initial_clearness=first, start_datetime=dt.datetime(2014, 5, 6) + dt.timedelta(minutes=at))
    c = sim.get_current_clearness()
    if at == 0:
        ctx.check(c == first, 'the given clearness at the start')
        ctx.check(sim.get_irradiance() == 0, 'dark at the start')
    elif at == 1:
        for j in range(3):
            ctx.check(ctx.Implies(c == values[j], tpm[values.index(first)][j] > 0), 'possible first transition')
    for k in range(n):
        sim.step()
        new = sim.get_current_clearness()
        ctx.check(ctx.Or(*[new == v for v in values]), 'a clearness of the data')
        for i in range(3):
            for j in range(3):
                ctx.check(ctx.Implies(ctx.And(c == values[i], new == values[j]), tpm[i][j] > 0), 'possible transition')
        c = new
    if at == 0:
        ctx.cover(ctx.And(first == .1, c == 1.), 'clears up')


DAYS = [(2014, 1, 1), (2015, 3, 27), (2015, 3, 28), (2016, 10, 29), (2016, 10, 30), (2015, 10, 31), (2014, 6, 21), (2016, 12, 31)]


@harness(H, 'sun', 'all transition probabilities, draws and two levels of clearness; the listed days, hours and places, '
         'with and without daylight saving', quick=[dict(place=0, n=3, step=60, hours=[0, 4, 9, 13, 19]), dict(place=1, n=2, step=20, hours=[5, 10]),
                                                    dict(place=2, n=3, step=60, hours=[22])],
         thorough=[dict(place=2, n=4, step=60, hours=list(range(0, 24, 2))), dict(place=0, n=5, step=30, hours=[7, 16]), dict(place=1, n=4, step=60, hours=[3, 23])])
def sun_(ctx, place, n, step, hours):
    """The irradiance is that of the clear sky times the clearness."""
    W = ctx.mod('simulators.weather_simulators')
    dt = ctx.dt
    place = PLACES[place]
    low, high = ctx.real('low', 0, 1), ctx.real('high', 0, 1)
    ctx.assume(low < high)
    tpm = [ctx.pdf('p%d' % i, 2) for i in range(2)]
    D = dt.timedelta(minutes=step)
    dst = ctx.choice('dst', [False, True])
    data = Data(ctx, tpm, [low, high], D, place, dst)
    start = dt.datetime(*ctx.choice('day', DAYS)) + dt.timedelta(hours=ctx.choice('hour', hours))
    sim = W.CrestIrradianceSimulator(data, initial_clearness=high, start_datetime=start)
    t = start
    for k in range(n + 1):
        if k or (t.hour, t.minute) != (0, 0):
            x, c = sim.get_irradiance(), sim.get_current_clearness()
            ctx.check(ctx.Or(c == low, c == high), 'a clearness of the data')
            a, b = sun(plain(t - D), place, dst)[0], sun(plain(t), place, dst)[0]
            ctx.check(x >= 0, 'never negative')
            ctx.check(ctx.And(x >= min(a, b) * c - 1e-6, x <= max(a, b) * c + 1e-6), 'irradiance of the time and the clearness')
            ctx.check(ctx.Or(ctx.And(x >= a * c - 1e-6, x <= a * c + 1e-6), ctx.And(x >= b * c - 1e-6, x <= b * c + 1e-6)),
                      'irradiance at the beginning or the end of the step')
            if a == 0 == b:
                ctx.check(x == 0, 'dark without sun')
        else:
            ctx.check(sim.get_irradiance() == 0, 'dark at midnight')
        ctx.check(sim.current_time == t, 'clock')
        if k < n:
            sim.step()
            t = t + D


@harness(H, 'step_size', 'all step sizes other than that of the data', quick=[dict()])
def step_size(ctx):
    W = ctx.mod('simulators.weather_simulators')
    dt = ctx.dt
    own = dt.timedelta(minutes=1)
    s = ctx.int('seconds', 1, 86400)
    data = Data(ctx, [[1.]], [1.], own, PLACES[0], True)
    kw = dict(initial_clearness=1., start_datetime=dt.datetime(2014, 1, 1))
    r, sim = ctx.raises(lambda: W.CrestIrradianceSimulator(data, step_size=dt.timedelta(seconds=s), **kw), ValueError)
    ctx.check(ctx.Iff(r, s != 60), 'only the step size of the data')


STARTS = [(2014, 5, 6, 0, 0), (2015, 2, 3, 0, 1), (2014, 12, 31, 13, 7), (2014, 7, 1, 23, 59)]


@harness(H, 'climate', 'all deviations of the temperature (draws) and mean temperatures, constant clearness, the listed starts, '
         'over midnight', quick=[dict(start=0, n=3, jump=0), dict(start=2, n=2, jump=700), dict(start=1, n=1, jump=0), dict(start=3, n=3, jump=0)],
         thorough=[dict(start=i, n=4, jump=j) for i in range(4) for j in (480, 1441)])
def climate(ctx, start, n, jump):
    """Irradiance and temperature of the climate belong to the time."""
    W = ctx.mod('simulators.weather_simulators')
    dt, np = ctx.dt, ctx.np
    place, dst = PLACES[0], True
    c = ctx.choice('clear', [.4, 1.])
    mean = ctx.real('mean', -20, 30)
    arma = dict(AR=.8, MA=.3, SD=2., T_mean=mean, T_std=7.5, T_shift=-110.)
    data = Data(ctx, [[1., 0.], [0., 1.]], [.4, 1.], dt.timedelta(minutes=1), place, dst, arma)
    start = dt.datetime(*STARTS[start])
    sim = W.CrestClimateSimulator(data, start_datetime=start, initial_clearness=c)
    t = start
    D = dt.timedelta(minutes=1)
    for _ in range(jump):
        sim.step()
        t = t + D
    old = None
    for k in range(n + 1):
        x = sim.get_irradiance()
        ctx.check(sim.current_time == t, 'clock')
        if (t.hour, t.minute) == (0, 0):
            ctx.check(x == 0, 'dark at midnight')
        else:
            a, b = sun(plain(t - D), place, dst)[0], sun(plain(t), place, dst)[0]
            ctx.check(ctx.Or(ctx.close(x, a * c, 1e-6), ctx.close(x, b * c, 1e-6)), 'irradiance of the time')
        ctx.observe('temperature', sim.get_outside_temperature())
        if k < n:
            sim.step()
            t = t + D


@harness(H, 'temperature', 'all mean temperatures, seasonal amplitudes and deviations (the same for all draws of the temperature '
         'models), constant clearness, whole days from midnight', quick=[dict(day=(2014, 5, 6), days=1), dict(day=(2015, 12, 31), days=2)],
         thorough=[dict(day=(2015, 3, 27), days=3), dict(day=(2014, 8, 1), days=2)])
def temperature(ctx, day, days):
    """Days warm up with the sun, cool down afterwards and at night, around the seasonal mean with its deviations."""
    W = ctx.mod('simulators.weather_simulators')
    dt, np = ctx.dt, ctx.np
    place, dst = PLACES[0], True
    c = ctx.choice('clear', [.4, 1.])
    mean, amp, z = ctx.real('mean', -20, 30), ctx.real('amplitude', 0, 15), ctx.real('z', -2, 2)
    AR, MA, SD, shift = .8, .3, 2., -110.
    data = Data(ctx, [[1., 0.], [0., 1.]], [.4, 1.], dt.timedelta(minutes=1), place, dst,
                dict(AR=AR, MA=MA, SD=SD, T_mean=mean, T_std=amp, T_shift=shift))
    start = dt.datetime(*day)

    def normal(loc=0., scale=1., size=None):
        return loc + scale * z
    with ctx.patched(np.random, randn=lambda: z, standard_normal=lambda size=None: z, normal=normal):
        sim = W.CrestClimateSimulator(data, start_datetime=start, initial_clearness=c)
        t = start
        ar = 0.
        for d in range(days):
            I, T = [], []
            for m in range(1440):
                if d or m:
                    sim.step()
                I.append(float(sim.get_irradiance()))
                T.append(sim.get_outside_temperature())
            n = plain(start).timetuple().tm_yday + d
            if n > 365:
                n = n - 365
            noise = z * (SD * (AR * ar + MA + 1))
            ar = AR * ar + 1
            td = mean + amp * math.sin(2 * math.pi * (n + shift) / 365) + noise
            light = [m for m in range(1440) if I[m] > 0]
            rise, fall = light[0], light[-1]
            solar = 1367 * (1 + .034 * math.cos(2 * math.pi * n / 365.25))
            K, total = {}, 0.
            for i, m in enumerate(light):
                total += I[m]
                K[m] = total / (solar * (i + 1))
            top = max(light, key=lambda m: K[m])
            span = 20 * math.log10(total / 60000 + 2.5) - 7 + z

            def warm(m):
                low, high = td - span * .5, td + span * .5
                up = span * (1 / K[top])
                return low + up * K[m] if m <= top else high - up * (1.7 * (K[top] - K[m]))
            ok = lambda a, b: ctx.And(a - b <= 1e-4, b - a <= 1e-4)
            for m in sorted({rise, rise + 1, (rise + top) // 2, top - 1, top, top + 1, (top + fall) // 2, fall - 1} - {fall}):
                if m < fall:
                    ctx.check(ok(T[m], warm(m)), 'temperature of a daylight minute')
            rate = (warm(fall) - warm(rise)) * (1. / (1440 - len(light)))
            for m in (fall, fall + 1, 1300, 1439):
                if m >= fall:
                    ctx.check(ok(T[m - 1] - T[m], rate), 'steady cooling after sunset')
            for m in (1, rise // 2, rise - 1):
                ctx.check(ok(T[m - 1] - T[m], rate), 'steady cooling before sunrise')
            ctx.check(ok(T[0], T[1439] - rate), 'the night is that of the day')
