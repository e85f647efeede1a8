"""Unit conversions and stored step sizes survive a round trip."""
import shutil
import tempfile

from symx.run import harness

H = []
NOT_COVERED = ['rounding of floating point (values are exact reals)', 'text layout of the json files (values are '
               'handed over as json would restore them)', 'nesting deeper than configured']
ASSUMPTIONS = ['json restores integers, strings, lists and dictionaries with string keys as written']
B = 'all values'


@harness(H, 'energy', B, quick=[dict(n=2)])
def energy(ctx, n):
    np = ctx.np
    c = ctx.mod('utils.converters')
    for x in (ctx.real('e'), ctx.reals('a', n), ctx.reals('m', (n, 2)), ctx.ints('i', n, -10**9, 10**9)):
        x0 = np.array(x)
        ctx.check(ctx.eq(c.joules_to_kwh(x) * 3600000, x0), 'one kWh is 3.6 million joules')
        ctx.check(ctx.eq(c.kwh_to_joules(x), x0 * 3600000), '3.6 million joules are one kWh')
        ctx.check(ctx.close(c.kwh_to_joules(c.joules_to_kwh(x)), x0), 'joules back')
        ctx.check(ctx.close(c.joules_to_kwh(c.kwh_to_joules(x)), x0), 'kWh back')
        ctx.check(ctx.eq(x, x0), 'input unaltered')
    ctx.check(ctx.eq(c.kwh_to_joules(1), 3600000), 'one kWh')


@harness(H, 'step_size', 'all durations of up to 20 years, in microseconds', quick=[dict()])
def step_size(ctx):
    dt = ctx.dt
    base = ctx.mod('datasets.base_loader')
    ld = object.__new__(base.DatasetLoader)
    tmp = tempfile.mkdtemp()
    ld.parsed_path = tmp
    try:
        a = dt.timedelta(days=ctx.int('d', -7300, 7300), seconds=ctx.int('s', 0, 86399),
                         microseconds=ctx.int('us', 0, 999999))
        b = dt.timedelta(minutes=ctx.int('m', 1, 1440))
        ld._save_step_size('x', a)
        ld._save_step_size('y', b)
        ctx.check(ld._load_step_size('x') == a, 'same duration')
        ctx.check(ld._load_step_size('y') == b, 'same duration for another name')
        ld._save_step_size('x', b)
        ctx.check(ld._load_step_size('x') == b, 'the last one stored is read')
        ctx.check(ld._load_step_size('x').total_seconds() == b.total_seconds(), 'same seconds')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def nested(ctx, name, depth):
    kinds = ['leaf', 'list', 'dict', 'array', 'matrix'] if depth else ['leaf', 'array']
    k = ctx.choice(name, kinds)
    if k == 'leaf':
        w = ctx.choice(name + 'w', ['real', 'int', 'str', 'none'])
        return {'real': lambda: ctx.real(name + 'v'), 'int': lambda: ctx.int(name + 'v', -9, 9),
                'str': lambda: 'text', 'none': lambda: None}[w]()
    if k == 'array':
        return ctx.reals(name + 'a', 2)
    if k == 'matrix':
        return ctx.ints(name + 'm', (2, 1), -9, 9)
    if k == 'list':
        return [nested(ctx, name + 'l0', depth - 1), 'x', nested(ctx, name + 'l1', 0)]
    return {'key': nested(ctx, name + 'd0', depth - 1), 'other': 3}


@harness(H, 'storable', 'all values; nesting of lists, dictionaries and arrays to the depth given', quick=[dict(depth=1)],
         thorough=[dict(depth=2)])
def storable(ctx, depth):
    np = ctx.np
    ph = ctx.mod('utils.parse_helpers')

    def same(out, src):
        if isinstance(src, dict):
            ctx.check(isinstance(out, dict) and list(out) == list(src), 'every key kept')
            for k in src:
                same(out[k], src[k])
        elif isinstance(src, (list, np.ndarray)):
            ctx.check(type(out) is list and len(out) == len(src), 'every length kept')
            for a, b in zip(out, src):
                same(a, b)
        elif src is None or isinstance(src, str):
            ctx.check(out == src, 'value kept')
        else:
            ctx.check(ctx.eq(out, src), 'value kept')
            if not ctx.sym:
                import json
                json.dumps(out)
    x = nested(ctx, 'x', depth)
    same(ph.make_jsonable({'data': x, 'more': [x]}), {'data': x, 'more': [x]})
    same(ph.make_jsonable(x), x)
