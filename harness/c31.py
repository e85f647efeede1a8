"""Parsed data are stored and read back without change."""
import datetime as _dt
import os
import shutil
import tempfile

from symx.run import harness

H = []
NOT_COVERED = ['rounding when numbers are written as json text (python writes and reads floats exactly)',
               'a file only partly written when the process stops: each file is written completely or not at all',
               'the parsing of the raw data files itself; downloads; object arrays (pickle)']
ASSUMPTIONS = ['numpy and json read back the values, names and keys they wrote (replays use real files)',
               'parsing returns what the documentation of the loading method asks for, with values free']
SUB = [{'n_residents': 1}, {'n_residents': 2}, {'n_residents': 1, 'household_type': 1}, {}]
TIME = [{'weekday': [1, 2, 3, 4, 5]}, {'weekday': [6, 7]}, {'quarter': 2}]


# --------------------------------------------------- what parsing gives

def pdfs(ctx, n, *shape):
    return ctx.reals(n, shape, 0, 1)


def tpm(ctx, n):
    return [pdfs(ctx, n + 't', 2, 2, 2), ctx.np.array(['00', '11']), pdfs(ctx, n + 'i', 2)]


def tpm_dur(ctx, n):
    t, lab, ini = tpm(ctx, n)
    return [t, pdfs(ctx, n + 'd', 2, 2, 3), lab, ini, pdfs(ctx, n + 'e', 2, 3)]


def sparse(ctx, n):
    sp, np = ctx.mod('utils.sparse'), ctx.np
    return [sp.SparseTPM(np.array([0, 0, 1, 1]), np.array([0, 1, 0, 1]), np.array([1, 0, 1, 1]), ctx.reals(n + 'v', 4, 0, 1), 2, 2),
            np.array(['00', '11']), np.array(['sleep', 'away']), pdfs(ctx, n + 'i', 2)]


def acts(ctx, n):
    return {'cooking': pdfs(ctx, n + 'c', 3), 'active_occupancy': pdfs(ctx, n + 'a', 2)}


def profiles(ctx, n):
    return {'cooking': pdfs(ctx, n + 'c', 2, 2), 'level': pdfs(ctx, n + 'l', 2, 2)}


def appliances(ctx, n):
    np = ctx.np
    return {'number': 2, 'name': np.array(['Fridge', 'Hob']), 'type': ['fridge', 'hob_2'], 'mean_duration': ctx.ints(n + 'd', 2, 0, 90),
            'mean_elec_consumption': ctx.reals(n + 'p', 2, 0, 3000), 'uses_water': np.array([False, True])}


def loads(ctx, n):
    return {'fridge': {'a_1': ctx.reals(n + 'a', 3, 0, 900), 'b&c': ctx.reals(n + 'b', 1, 0, 900)}, 'hob_2': {'a_1': ctx.reals(n + 'c', 2, 0, 900)}}


def ownership(ctx, n):
    return {'fridge': ctx.real(n + 'f', 0, 1), 'fridge_2': ctx.real(n + 'g', 0, 1)}


def population(ctx, n):
    return [[{'n_residents': 1, 'age': [20, 30]}, {'n_residents': 2}], pdfs(ctx, n + 'p', 2), 1000]


def clearness(ctx, n):
    return [pdfs(ctx, n + 't', 2, 2), pdfs(ctx, n + 'l', 2), ctx.dt.timedelta(minutes=1)]


def numbers(ctx, n):
    return {'a': ctx.real(n + 'a', -90, 90), 'b': ctx.real(n + 'b', -90, 90), 'country': 'UK', 'use_daylight_saving_time': True}


def climate(ctx, n):
    np = ctx.np
    return {'datetime': np.array(['2014-01-01T00:00', '2014-01-01T01:00', '2014-01-01T02:00'], dtype='datetime64[s]'),
            'outside_temperature': ctx.reals(n + 't', 3, -30, 40), 'irradiance': ctx.reals(n + 'i', 3, 0, 1400)}


def lighting(ctx, n):
    return {'power_mean': ctx.real(n + 'm', 0, 99), 'effective_occupancy': ctx.reals(n + 'o', 3, 0, 4), 'durations_cdf': [0.5, ctx.real(n + 'c', 0.5, 1)]}


def bulbs(ctx, n):
    return [ctx.reals(n + 'c', 2, 0, 99), ctx.reals(n + 'p', 2, 0, 1)]


def config(ctx, n):
    return ctx.reals(n, (2, 2), 0, 99)


def stats(ctx, n):
    return [ctx.real(n + 'm', 0, 99), ctx.real(n + 's', 0, 9)]


def heating(ctx, n):
    return {'name': ctx.np.array(['a', 'b']), 'equipped_prob': pdfs(ctx, n + 'p', 2), 'C_i': ctx.reals(n + 'c', 2, 1, 9), 'on': ctx.np.array([True, False])}


def thermostat(ctx, n):
    return {'home_temperatures_cdf': pdfs(ctx, n + 'c', 3), 'emitter_setpoints': ctx.real(n + 'e', 0, 99),
            'deadband': {'space_heating': ctx.real(n + 'd', 0, 9), 'hot_water': 5}}


# kind: (loading method, parsing method, data, takes a subgroup, depends on the time of the year or week, legend, parts)
KINDS = {
    'tpm': ('load_tpm', '_parse_tpm', tpm, 'sub', True, True),
    'tpm_duration': ('load_tpm_with_duration', '_parse_tpm_with_duration', tpm_dur, 'sub', True, True),
    'sparse_tpm': ('load_sparse_tpm', '_parse_sparse_tpm', sparse, 'sub', True, True),
    'activity_profiles': ('load_activity_probability_profiles', '_parse_activity_profiles', profiles, 'sub', True, False),
    'activity_starts': ('load_daily_activity_starts', '_parse_daily_activity_starts', acts, 'sub', True, False),
    'activity_duration': ('load_activity_duration', '_parse_activity_duration', acts, 'sub', True, False),
    'activity_probabilities': ('load_activity_probabilities', '_parse_activity_probabilities', acts, 'sub', True, False),
    'ownership': ('load_appliance_ownership_dict', '_parse_appliance_ownership_dict', ownership, 'sub', False, False),
    'switchons': ('load_yearly_target_switchons', '_parse_yearly_target_switchons', ownership, 'sub', False, False),
    'consumption': ('load_yearly_target_consumption', '_parse_yearly_target_consumption', ownership, 'sub', False, False),
    'duration': ('load_yearly_target_duration', '_parse_yearly_target_duration', ownership, 'sub', False, False),
    'bulbs_config': ('load_bulbs_config', '_parse_bulbs_config', config, 'sub', True, False),
    'bulbs_stats': ('load_installed_bulbs_stats', '_parse_installed_bulbs_stats', stats, 'sub', True, False),
    'buildings': ('load_buildings_dict', '_parse_buildings_dict', heating, 'sub', True, False),
    'heating_systems': ('load_heating_system_dict', '_parse_heating_system_dict', heating, 'sub', True, False),
    'thermostats': ('load_thermostat_dict', '_parse_thermostat_dict', thermostat, 'sub', True, False),
    'population': ('load_population_subgroups', '_parse_population_subgroups', population, 'text', True, False),
    'profiles': ('load_real_profiles_dict', '_parse_real_profiles_dict', loads, 'text', True, False),
    'appliances': ('load_appliance_dict', '_parse_appliance_dict', appliances, None, True, False),
    'clearness': ('load_clearness_tpms', '_parse_clearness_tpms', clearness, None, True, False),
    'arma': ('load_temperatures_arma', '_parse_temperatures_arma', numbers, None, True, False),
    'geography': ('load_geographic_data', '_parse_geographic_data', numbers, None, True, False),
    'climate': ('load_historical_climate_data', '_parse_historical_climate_data', climate, None, True, False),
    'fisher': ('load_fisher_lighting', '_parse_fisher_lighting', numbers, None, True, False),
    'crest_lighting': ('load_crest_lighting', '_parse_crest_lighting', lighting, None, True, False),
    'bulbs': ('load_bulbs', '_parse_bulbs', bulbs, None, True, False),
}
BY_SUB = [k for k in KINDS if KINDS[k][3] == 'sub']


class Store:
    """A directory of data sets, the loader class and what parsing gives."""

    def __init__(self, ctx, sets=('A',)):
        self.ctx, self.parsed, self.count = ctx, {}, {}
        self.base, self.tou = ctx.mod('datasets.base_loader'), ctx.mod('datasets.tou_loader')
        self.tmp = tempfile.mkdtemp()
        for s in sets:
            os.mkdir(os.path.join(self.tmp, s))
        b = self.base
        store = self

        class Loader(self.tou.LoaderTOU, b.ApplianceLoader, b.PopulationLoader, b.ClimateLoader, b.LightingLoader, b.HeatingLoader):
            DATASET_NAME = sets[0]
            step_size = _dt.timedelta(hours=1)
        for kind, (_, name, _, arg, timed, legend) in KINDS.items():
            def parse(self, which=None, kind=kind, timed=timed, legend=legend):
                key = store.key(self, kind, which)
                store.count[key] = store.count.get(key, 0) + 1
                out = store.copy(store.data(key))
                return tuple(out) + ((dict(kind=kind),) if legend else ()) if isinstance(out, list) else out
            setattr(Loader, name, parse)
        self.Loader = Loader

    def key(self, loader, kind, which):
        if isinstance(which, dict):
            which = tuple(sorted((k, str(v)) for k, v in which.items() if KINDS[kind][4] or k not in ('weekday', 'quarter')))
        tou = kind.startswith(('tpm', 'sparse', 'activity'))
        return (loader.DATASET_NAME, loader.version, loader.activity_type if tou else None, kind, which)

    def data(self, key):
        if key not in self.parsed:
            self.parsed[key] = KINDS[key[3]][2](self.ctx, 'd%d' % len(self.parsed))
        return self.parsed[key]

    def copy(self, x):
        if isinstance(x, dict):
            return {k: self.copy(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.copy(v) for v in x]
        return self.ctx.np.array(x) if isinstance(x, self.ctx.np.ndarray) else x

    def open(self, name=None, activity='4_States', version=None, **kw):
        with self.ctx.patched(self.base, DATASET_PATH=self.tmp):
            cls = self.Loader if name is None else type('Other', (self.Loader,), {'DATASET_NAME': name})
            return cls(activity, version=version, **kw)

    def load(self, loader, kind, which=None):
        name = KINDS[kind][0]
        if kind == 'climate':
            return getattr(loader, name)(_dt.datetime(2014, 1, 1))
        if which is None:
            return getattr(loader, name)()
        given = {k: (list(v) if isinstance(v, list) else v) for k, v in which.items()} if isinstance(which, dict) else which
        out = getattr(loader, name)(given)
        self.ctx.check(given == which, 'the subgroup asked for is left as it was')
        return out

    def expect(self, loader, kind, which=None):
        """The data are those parsed for this data set, version, activity type, kind and subgroup."""
        key = self.key(loader, kind, which)
        n = self.count.get(key, 0)
        out = self.load(loader, kind, which)
        self.same(out, self.data(key))
        self.ctx.check(self.count.get(key, 0) == 1, 'parsed once')
        return n

    def same(self, out, src):
        ctx, np = self.ctx, self.ctx.np
        sp = ctx.mod('utils.sparse')
        if isinstance(src, dict):
            ctx.check(isinstance(out, dict) and sorted(out) == sorted(src), 'same names')
            for k in src:
                self.same(out[k], src[k])
        elif isinstance(src, sp.SparseTPM):
            for t in range(src.n_times):
                self.same(np.array(out[t]), np.array(src[t]))
        elif str(getattr(src, 'dtype', '')).startswith('datetime64'):
            ctx.check(bool(np.all(out == src)) and len(out) == len(src), 'same times')
        elif isinstance(src, (list, tuple)) or getattr(src, 'shape', ()) != ():
            ctx.check(len(out) == len(src), 'same length')
            if hasattr(src, 'shape'):
                ctx.check(ctx.shape(np.asarray(out)) == ctx.shape(src), 'same shape')
            for a, b in zip(out, src):
                self.same(a, b)
        elif isinstance(src, (str, bool)) or hasattr(src, 'total_seconds') or src is None:
            ctx.check(out == src, 'same value')
        elif type(src).__name__ in ('str_', 'bool_', 'bool'):
            ctx.check(bool(out == src), 'same value')
        else:
            ctx.check(ctx.eq(out, src), 'same value')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.tmp, ignore_errors=True)


def argument(ctx, kind, name):
    if KINDS[kind][3] == 'sub':
        return dict(ctx.choice(name, SUB))
    return ctx.choice(name, ['one', 'other']) if KINDS[kind][3] else None


@harness(H, 'history', 'every kind of data; every history of 3 loads, each of any subgroup, by the same or a new loader; all values',
         quick=[dict(kinds=list(KINDS)[i::4]) for i in range(4)])
def history(ctx, kinds):
    kind = ctx.choice('kind', kinds)
    with Store(ctx) as st:
        ld = st.open()
        for i in range(3):
            if i and ctx.bool('new%d' % i):
                ld = st.open()
            st.expect(ld, kind, argument(ctx, kind, 'which%d' % i))


@harness(H, 'kinds', 'every ordered pair of different kinds, loaded one after the other and again, for each subgroup; all values',
         quick=[dict(n=6, part=i) for i in range(6)])
def kinds(ctx, n, part):
    a = ctx.choice('a', list(KINDS)[part::n])
    b = ctx.choice('b', [k for k in KINDS if k != a])
    with Store(ctx) as st:
        ld = st.open()
        which = {k: (dict(SUB[0]) if KINDS[k][3] == 'sub' else 'one' if KINDS[k][3] else None) for k in (a, b)}
        for kind in (a, b, a, b):
            st.expect(ld, kind, which[kind])


@harness(H, 'time', 'every kind by subgroup; the time of the week or year matters to the data or not; all values', quick=[dict()])
def time(ctx):
    kind = ctx.choice('kind', BY_SUB)
    with Store(ctx) as st:
        ld = st.open()
        base = dict(ctx.choice('sub', SUB))
        for i in range(2):
            st.expect(ld, kind, dict(base, **ctx.choice('when%d' % i, TIME)))


@harness(H, 'apart', 'every kind; two data sets, versions or activity types; all values', quick=[dict()])
def apart(ctx):
    kind = ctx.choice('kind', list(KINDS))
    with Store(ctx, ('A', 'B')) as st:
        how = ctx.choice('how', ['set', 'version', 'activity'])
        one = st.open(version='v1' if how == 'version' else None)
        two = {'set': lambda: st.open('B'), 'version': lambda: st.open(version='v2'), 'activity': lambda: st.open(activity='9_States')}[how]()
        which = argument(ctx, kind, 'which')
        for ld in (one, two, one, two):
            st.expect(ld, kind, which)


@harness(H, 'cleared', 'every kind; two versions, the data of one are cleared; all values', quick=[dict()])
def cleared(ctx):
    kind = ctx.choice('kind', list(KINDS))
    with Store(ctx) as st:
        one, two = st.open(version='v1'), st.open(version='v2')
        which = argument(ctx, kind, 'which')
        for ld in (one, two):
            st.expect(ld, kind, which)
        before = dict(st.count)
        one = st.open(version='v1', clear_parsed_data=True)
        st.count.clear()
        st.load(one, kind, which)
        ctx.check(sum(st.count.values()) == 1, 'cleared data are parsed again')
        st.load(two, kind, which)
        ctx.check(sum(st.count.values()) == 1, 'data of the other version are kept')
        st.count.update(before)
        st.expect(one, kind, which)


class Stop(BaseException):
    pass


@harness(H, 'stopped', 'every kind; the process stops after any number of the files were written; all values', quick=[dict()])
def stopped(ctx):
    kind = ctx.choice('kind', list(KINDS))
    np = ctx.np
    with Store(ctx) as st:
        ld = st.open()
        which = argument(ctx, kind, 'which')
        left = [ctx.choice('files', list(range(9)))]

        def limit(f):
            def g(*a, **k):
                if not left[0]:
                    raise Stop()
                left[0] -= 1
                return f(*a, **k)
            return g
        with ctx.patched(np, save=limit(np.save), savez=limit(np.savez), savez_compressed=limit(np.savez_compressed)):
            try:
                st.load(ld, kind, which)
                complete = True
            except Stop:
                complete = False
        st.count = {}
        ld = st.open()
        key = st.key(ld, kind, which)
        st.same(st.load(ld, kind, which), st.data(key))
        if complete:
            ctx.check(sum(st.count.values()) == 0, 'complete data are not parsed again')
        n = sum(st.count.values())
        st.same(st.load(ld, kind, which), st.data(key))
        ctx.check(sum(st.count.values()) == n, 'parsed once more at most')


@harness(H, 'crest', 'CREST transition matrices; subgroups of 2 sizes and day types; 3 loads by the same or a new loader; all values', quick=[dict()])
def crest(ctx):
    m = ctx.mod('datasets.CREST.loader')
    tmp = tempfile.mkdtemp()
    parsed, count = {}, {}
    try:
        os.mkdir(tmp + '/p')

        def parse(subgroup):
            key = str(sorted(subgroup.items()))
            count[key] = count.get(key, 0) + 1
            if key not in parsed:
                parsed[key] = tpm(ctx, 'd%d' % len(parsed))
            return tuple(ctx.np.array(x) for x in (parsed[key][0], parsed[key][1], parsed[key][2]))

        def new():
            ld = object.__new__(m.Crest)
            ld.parsed_path, ld.version, ld.allow_pickle, ld._parse_tpm = tmp + '/p', 'v_2.2', False, parse
            return ld
        ld = new()
        for i in range(3):
            if i and ctx.bool('new%d' % i):
                ld = new()
            sub = {'n_residents': ctx.choice('n%d' % i, [1, 2]), 'weekday': ctx.choice('w%d' % i, [[1, 2, 3, 4, 5], [6, 7]])}
            given = dict(sub)
            out = ld.load_tpm(given)
            ctx.check(given == sub, 'the subgroup asked for is left as it was')
            key = str(sorted(sub.items()))
            Store.same(_Same(ctx), out, parsed[key])
            ctx.check(count[key] == 1, 'parsed once')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class _Same:
    """What Store.same needs."""

    def __init__(self, ctx):
        self.ctx = ctx

    def same(self, out, src):
        Store.same(self, out, src)
