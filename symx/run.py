"""Runs the harnesses of one property and reports."""
import argparse
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback
import contextlib
import io
import warnings

import numpy as np
import z3

from . import core, load, shim
from .core import PathAbort, Inconclusive, Engine
from .ctx import SymCtx, ConcCtx, AssumeFail, CheckFailed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    def __init__(self, name, fn, bounds, quick, thorough, max_paths, budget, qt):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.quick, self.thorough = quick, thorough
        self.max_paths, self.budget, self.qt = max_paths, budget, qt


def harness(reg, name, bounds, quick=({},), thorough=(), max_paths=100000, budget=600, qt=20000):
    """Register a harness; thorough configurations come in addition."""
    def deco(f):
        reg.append(Harness(name, f, bounds, list(quick), list(thorough), max_paths, budget, qt))
        return f
    return deco


class Job:
    def __init__(self, prop, h, cfg, known, tier):
        self.prop, self.h, self.cfg, self.known, self.tier = prop, h, cfg, known, tier
        self.reached = {}
        self.covered = {}
        self.want_cover = set()
        self.known_hits = {}
        self.cands = []
        self.cand_labels = set()

    def violation(self, ctx, label, m, extra):
        if label in self.cand_labels:
            return
        vals = ctx.values(m)
        alts = [vals]
        # a model in dyadic numbers close to this one survives rounding
        try:
            fixed = list(extra)
            terms = list(ctx.inputs.values()) + list(core.CUR.draws.vars)
            for t in terms:
                if not z3.is_real(t):
                    continue
                v = m.eval(t, model_completion=True)
                if not z3.is_rational_value(v):
                    continue
                f = v.as_fraction()
                for den in (1, 8, 1024, 2 ** 20):
                    q = z3.Q(round(f * den), den)
                    ok, _m2 = ctx.e.raw_check(*(fixed + [t == q]))
                    if ok == z3.sat:
                        fixed.append(t == q)
                        m = _m2
                        break
            alts.insert(0, ctx.values(m))
        except Inconclusive:
            pass
        self.cand_labels.add(label)
        self.cands.append({'label': label, 'alts': alts})

    def retry(self, e, extra):
        """Other solver configurations for a query that came back unknown."""
        for tac in ('qfnra-nlsat', 'smt', 'qflia'):
            try:
                s = z3.Then('simplify', 'solve-eqs', tac).solver() if tac != 'smt' else z3.SimpleSolver()
                s.set('timeout', 60000)
                s.add(*e.pc)
                s.add(*extra)
                t0 = time.time()
                r = s.check()
                e.n_queries += 1
                e.solver_time += time.time() - t0
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                continue
        return z3.unknown, None


@contextlib.contextmanager
def conc_mode(draws):
    load.activate('conc')
    rnd = shim.Random(False)
    old_draws = getattr(core.CUR, 'draws', None)
    core.CUR.draws = shim.ConcDraws(draws)
    saved = {}
    for n in shim.RANDOM_NAMES:
        if hasattr(np.random, n):
            saved[n] = getattr(np.random, n)
            setattr(np.random, n, getattr(rnd, n))
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield
    finally:
        for n, v in saved.items():
            setattr(np.random, n, v)
        core.CUR.draws = old_draws


def run_concrete(h, cfg, values):
    """-> (outcome, label, ctx); outcome in ok / failed / exception / assume."""
    ctx = ConcCtx(values)
    with conc_mode(values['draws']):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                h.fn(ctx, **cfg)
            return 'ok', None, ctx
        except CheckFailed as c:
            return 'failed', c.label, ctx
        except AssumeFail:
            return 'assume', None, ctx
        except core.Unsupported as exc:
            return 'unsupported', str(exc), ctx
        except Exception as exc:
            ctx.tb = traceback.format_exc()
            return 'exception', exc_label(exc), ctx


def exc_label(exc):
    where = ''
    for f in traceback.extract_tb(exc.__traceback__):
        if f.filename.startswith(load.REPO):
            where = '%s:%s' % (os.path.relpath(f.filename, load.REPO), f.name)
    return 'exception:%s@%s' % (type(exc).__name__, where)


def close_val(a, b):
    try:
        if isinstance(a, (list, tuple)) or hasattr(a, 'shape') and np.ndim(a):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            if a.dtype.kind in 'biuf':
                return bool(np.allclose(a.astype(float), b.astype(float), rtol=1e-6, atol=1e-6, equal_nan=True))
            return bool((a == b).all())
        if isinstance(a, dict):
            return set(a) == set(b) and all(close_val(a[k], b[k]) for k in a)
        if isinstance(a, (float, int, np.number, np.bool_, bool)):
            return bool(np.isclose(float(a), float(b), rtol=1e-6, atol=1e-6, equal_nan=True))
        return a == b
    except Exception:
        return False


def eval_obs(v, m):
    """Value of an observation under a model."""
    from .ctx import val
    if core._is_sym(v):
        return val(m, v.t)
    if hasattr(v, '__symarray__'):
        o = np.empty(v.a.shape, dtype=object)
        for p in np.ndindex(*v.a.shape):
            o[p] = eval_obs(v.a[p], m)
        return o.astype(float) if v.k != 'O' else o
    if isinstance(v, (list, tuple)):
        return [eval_obs(e, m) for e in v]
    if isinstance(v, dict):
        return {k: eval_obs(e, m) for k, e in v.items()}
    if hasattr(v, '_sym_eval'):
        return v._sym_eval(m)
    return v


def run_job(args):
    prop, hi, cfg, tier, known, deadline = args
    t0 = time.time()
    h = get_harnesses(prop)[hi]
    job = Job(prop, h, cfg, known, tier)
    e = Engine(query_timeout_ms=h.qt, deadline=min(deadline, t0 + h.budget))
    core.CUR.eng = e
    res = {'harness': h.name, 'cfg': cfg, 'paths': 0, 'aborted': 0, 'validated': 0, 'diverged': 0, 'inconclusive': [],
           'samples': [], 'functions': [], 'hi': hi}
    funcs = set()
    last_note = 0
    diverg = []
    while True:
        load.activate('sym')
        e.begin()
        core.CUR.eng = e
        core.CUR.draws = shim.SymDraws(e)
        ctx = SymCtx(e, job)
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    h.fn(ctx, **cfg)
                except Exception as exc:
                    m = e.get_model()
                    lab = exc_label(exc)
                    job.tb = traceback.format_exc()
                    job.violation(ctx, lab, m, [])
                    raise PathAbort()
                res['paths'] += 1
                m = e.get_model()
            if res['validated'] + res['diverged'] < 40 or res['paths'] % 25 == 0:
                vals = ctx.values(m)
                prof = None
                if len(funcs) < 4000 and res['validated'] < 40:
                    def prof(frame, ev, arg):
                        if ev == 'call':
                            c = frame.f_code
                            if c.co_filename.startswith(load.REPO):
                                funcs.add('%s:%s' % (os.path.relpath(c.co_filename, load.REPO), c.co_qualname))
                    sys.setprofile(prof)
                try:
                    oc, lab, cc = run_concrete(h, cfg, vals)
                finally:
                    sys.setprofile(None)
                same = oc == 'ok' and len(cc.obs) == len(ctx.obs) and all(
                    n1 == n2 and close_val(eval_obs(v1, m), v2)
                    for (n1, v1), (n2, v2) in zip(ctx.obs, cc.obs))
                if same:
                    res['validated'] += 1
                else:
                    res['diverged'] += 1
                    if len(diverg) < 5:
                        diverg.append({'outcome': oc, 'label': lab, 'values': vals,
                                       'obs': [(n1, repr(eval_obs(v1, m))[:300], repr(v2)[:300])
                                               for (n1, v1), (n2, v2) in zip(ctx.obs, cc.obs)
                                               if not close_val(eval_obs(v1, m), v2)]})
                    if oc == 'exception':
                        diverg[-1]['tb'] = cc.tb[-1500:]
                    # the real code broke the property where the exact model did not
                    if oc in ('failed', 'exception') and False:
                        pass
                if len(res['samples']) < 2:
                    res['samples'].append({'values': vals, 'checks': ctx.checked})
        except PathAbort:
            res['aborted'] += 1
        except Inconclusive as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            loc = [f for f in tb if f.filename.startswith(load.REPO)]
            res['inconclusive'].append('%s: %s%s' % (type(exc).__name__, exc, ' at %s:%s' % (
                os.path.relpath(loc[-1].filename, load.REPO), loc[-1].lineno) if loc else ''))
            if os.environ.get('SYMX_TB'):
                traceback.print_exc()
            if time.time() > e.deadline or len(res['inconclusive']) > 3:
                break
        except RecursionError:
            res['inconclusive'].append('recursion limit')
            break
        if len(job.cands) >= 4:
            break
        if res['paths'] + res['aborted'] > h.max_paths:
            res['inconclusive'].append('more than %d paths' % h.max_paths)
            break
        if not e.next_path():
            break
        if os.environ.get('SYMX_VERBOSE') and time.time() - last_note > 10:
            last_note = time.time()
            print('   ...', h.name, cfg, 'paths', res['paths'], 'aborted', res['aborted'], 'queries', e.n_queries,
                  'solver %.0fs' % e.solver_time, 'elapsed %.0fs' % (time.time() - t0), flush=True)
    load.activate('conc')
    core.CUR.eng = None
    res.update(queries=e.n_queries, forks=e.n_forks, solver_s=round(e.solver_time, 2), wall_s=round(time.time() - t0, 2),
               reached=job.reached, cands=job.cands, known_hits=job.known_hits, uf=sorted(e.used_uf),
               missed_cover=sorted(job.want_cover - set(job.covered)), diverg=diverg,
               functions=sorted(funcs), covered=sorted(job.covered))
    if hasattr(job, 'tb'):
        res['tb'] = job.tb[-3000:]
    return res


def get_harnesses(prop):
    m = importlib.import_module('harness.' + prop.lower())
    return m.H


def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    r = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('status') == 'finding':
                    r[d['id']] = d
    return r


def _init():
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 * 2 ** 30, 6 * 2 ** 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    _init()
    if a.replay:
        return replay_main(a)
    if a.v:
        os.environ['SYMX_VERBOSE'] = '1'
    t0 = time.time()
    hs = get_harnesses(a.prop)
    known = {k: v for k, v in known_findings().items() if v['property'] == a.prop}
    budget = 780 if a.tier == 'quick' else 4 * 3600
    jobs = []
    for i, h in enumerate(hs):
        if a.only and a.only not in h.name:
            continue
        cfgs = list(h.quick) + (list(h.thorough) if a.tier == 'thorough' else [])
        for c in cfgs:
            if a.tier == 'thorough':
                pass
            jobs.append((a.prop, i, c, a.tier, set(known), t0 + budget))
    if a.tier == 'thorough':
        for h in hs:
            h.budget = max(h.budget, 2 * 3600)
    results = []
    if a.jobs == 1:
        results = [run_job(j) for j in jobs]
    else:
        ctxm = multiprocessing.get_context('fork')
        with ctxm.Pool(min(a.jobs, len(jobs)), initializer=_init, maxtasksperchild=4) as pool:
            pend = [(j, pool.apply_async(run_job, (j,))) for j in jobs]
            for j, p in pend:
                try:
                    results.append(p.get(timeout=max(5, t0 + budget + 60 - time.time())))
                except multiprocessing.TimeoutError:
                    results.append(_lost(hs, j, 'no result within the time budget'))
                except Exception as exc:
                    results.append(_lost(hs, j, 'worker failed: %r' % (exc,)))
            pool.terminate()
    return report(a, hs, results, known, t0)


def _lost(hs, j, why):
    return {'harness': hs[j[1]].name, 'cfg': j[2], 'paths': 0, 'aborted': 0, 'validated': 0, 'diverged': 0,
            'inconclusive': [why], 'samples': [], 'functions': [], 'hi': j[1], 'queries': 0, 'forks': 0, 'solver_s': 0,
            'wall_s': 0, 'reached': {}, 'cands': [], 'known_hits': {}, 'uf': [], 'missed_cover': [], 'diverg': [],
            'covered': []}


def do_replay(prop, hname, cfg, values, label, path):
    """Replay in a fresh process over the real numpy; True if reproduced."""
    with open(path, 'w') as f:
        json.dump({'property': prop, 'harness': hname, 'cfg': cfg, 'label': label, 'values': values}, f, indent=1)
    r = subprocess.run([os.path.join(VERIF, 'check'), prop, '--replay', path], capture_output=True, text=True,
                       timeout=300)
    return r.returncode == 1, r.stdout + r.stderr


def replay_main(a):
    d = json.load(open(a.replay))
    h = [h for h in get_harnesses(a.prop) if h.name == d['harness']][0]
    oc, lab, ctx = run_concrete(h, d['cfg'], d['values'])
    if oc in ('failed', 'exception'):
        print('reproduced: %s (%s) in harness %s' % (lab, oc, h.name))
        print('inputs: %s' % json.dumps(d['values']))
        if oc == 'exception':
            print(ctx.tb)
        return 1
    print('not reproduced: outcome %s %s' % (oc, lab or ''))
    return 0 if oc == 'ok' else 3


def report(a, hs, results, known, t0):
    ev_dir = os.path.join(VERIF, 'evidence')
    rp_dir = os.path.join(ev_dir, 'replays')
    os.makedirs(rp_dir, exist_ok=True)
    viols, unrep, inconc, kn = [], [], [], {}
    n = 0
    for r in results:
        for c in r['cands']:
            ok = False
            for values in c['alts']:
                n += 1
                path = os.path.join(rp_dir, '%s-%d.json' % (a.prop, n))
                ok, outp = do_replay(a.prop, r['harness'], r['cfg'], values, c['label'], path)
                if ok:
                    viols.append((r['harness'], c['label'], path, outp))
                    break
            if not ok:
                unrep.append('%s %s: counterexample for %s did not reproduce: %s' % (
                    r['harness'], r['cfg'], c['label'], outp.strip()[-400:]))
                if a.v:
                    print(json.dumps(c['alts'][0]))
                    print(r.get('tb', ''))
        for msg in r['inconclusive']:
            inconc.append('%s %s: %s' % (r['harness'], r['cfg'], msg))
        if not r['inconclusive'] and not r['cands']:
            if not r['reached'] or r['paths'] == 0:
                inconc.append('%s %s: vacuous, no check reached' % (r['harness'], r['cfg']))
            for lab in r['missed_cover']:
                inconc.append('%s %s: vacuous, never possible: %s' % (r['harness'], r['cfg'], lab))
        for lab, (kid, values) in r['known_hits'].items():
            if kid in kn:
                continue
            n += 1
            path = os.path.join(rp_dir, '%s-%d.json' % (a.prop, n))
            ok, outp = do_replay(a.prop, r['harness'], r['cfg'], values, lab, path)
            if ok:
                kn[kid] = path
        if a.v:
            print('%-32s %-30s paths %5d (+%d cut) queries %6d solver %7.1fs wall %7.1fs validated %d diverged %d %s' % (
                r['harness'], r['cfg'], r['paths'], r['aborted'], r['queries'], r['solver_s'], r['wall_s'],
                r['validated'], r['diverged'], 'INCONCLUSIVE' if r['inconclusive'] else ''))
            for d in r['diverg'][:2]:
                print('    diverged:', d)
    for k in sorted(kn):
        print('KNOWN-FINDING: property=%s %s %s' % (a.prop, k, known[k]['what']))
    seen = set()
    for hn, lab, path, outp in viols:
        if (hn, lab) in seen:
            continue
        seen.add((hn, lab))
        print('violated: %s in harness %s' % (lab, hn))
        if a.v:
            print(outp)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    for m in (unrep + inconc)[:20]:
        print('INCONCLUSIVE: ' + m)
    wall = time.time() - t0
    if not a.only and not a.no_evidence:
        write_evidence(a, hs, results, viols, kn, unrep + inconc, wall)
    tot = sum(r['queries'] for r in results)
    print('%s %s: %d harness runs, %d paths, %d queries, %.1f s solver, %.1f s wall' % (
        a.prop, a.tier, len(results), sum(r['paths'] for r in results), tot, sum(r['solver_s'] for r in results), wall))
    if viols:
        return 1
    if unrep or inconc:
        return 2
    return 0


def write_evidence(a, hs, results, viols, kn, problems, wall):
    funcs = sorted(set(f for r in results for f in r['functions']))
    try:
        z = z3.get_version_string()
    except Exception:
        z = '?'
    hb = []
    for r in results:
        h = hs[r['hi']]
        hb.append({'harness': r['harness'], 'configuration': r['cfg'], 'bounds': h.bounds, 'paths': r['paths'],
                   'paths_cut_as_infeasible': r['aborted'], 'queries': r['queries'], 'forks': r['forks'],
                   'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'checks_reached': r['reached'],
                   'covers_reached': r['covered'], 'traces_validated': r['validated'],
                   'traces_diverged': r['diverged'], 'uninterpreted': r['uf']})
    import importlib as _i
    mod = _i.import_module('harness.' + a.prop.lower())
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'wall_s': round(wall, 2), 'violations': len(viols),
        'assumptions': assumptions,
        'coverage': {
            'explanation': 'The listed functions of /repo were executed symbolically (every path within the stated '
                           'bounds); each check is the solver verdict over all values of the symbolic inputs and '
                           'random draws of that path. "unsat" of the negated check means it holds for all of them.',
            'technique': 'symbolic execution of the real Python source over symbolic numpy arrays, z3 ' + z,
            'functions_encoded': funcs,
            'harnesses': hb,
            'paths': sum(r['paths'] for r in results),
            'queries_discharged': sum(r['queries'] for r in results),
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'checks_by_label': _merge(results),
            'traces_validated_against_impl': sum(r['validated'] for r in results),
            'traces_diverged_by_rounding': sum(r['diverged'] for r in results),
            'exhaustive_within_bounds': not problems,
            'inconclusive': problems,
            'known_findings_seen': sorted(kn),
            'not_covered': list(getattr(mod, 'NOT_COVERED', [])),
            'samples': [s for r in results for s in r['samples']][:6],
        },
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


COMMON_ASSUMPTIONS = [
    'Floating point numbers are exact reals and integers are unbounded: rounding, overflow and fixed-width wrap-around '
    'are outside the claim (comparisons of real results use a stated tolerance).',
    'numpy is replaced by a symbolic stand-in (/verif/symx); one model per path is run on the real numpy and must give '
    'the same observations.',
    'Random draws are arbitrary values of their range (uniform in [0,1), normal within 6 sigma, integers within their '
    'bounds); their distribution is not considered.',
]


def _merge(results):
    d = {}
    for r in results:
        for k, v in r['reached'].items():
            d[k] = d.get(k, 0) + v
    return d
