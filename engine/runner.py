"""Run a check: explore every case symbolically, discharge with z3, replay."""
import argparse
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVD = os.path.join(ROOT, 'evidence')


class Touch:
    """which Python functions of the package were executed (sys.monitoring)"""

    def __init__(self, prefix):
        self.seen = set()
        self.prefix = prefix

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(4, 'vpywt')
        except ValueError:
            return
        m.register_callback(4, m.events.PY_START, self.cb)
        m.set_events(4, m.events.PY_START)

    def cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.prefix):
            q = code.co_qualname
            if '<' not in q.split('.')[-1]:
                self.seen.add(fn[len(self.prefix):] + ':' + q)
        return sys.monitoring.DISABLE


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout()


_state = {}


def init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    from . import cbuild
    t = _state['touch'] = Touch(cbuild.REPO + '/')
    t.start()


def run_case(job):
    """executed in a worker process"""
    idx, case, limit = job
    from . import explore, llir, sym, loader
    from .symenv import SymEnv, Discharge, Q, inputs_from, ev
    from .env import Stop
    from .sym import Unsupported, UB
    mod = _state['mod']
    name, fn, cfg = case
    body = getattr(mod, fn)
    w = loader.world()
    r = dict(name=name, status='ok', obligations=0, structural=0, paths=0, fails=[], trace=None, note='')
    q0 = (Q.queries, Q.time, explore.STATS.queries, explore.STATS.solver_time)
    t0 = time.time()
    signal.alarm(int(limit))
    envs = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')

            def one(ctx):
                llir.STEPS[0] = getattr(mod, 'STEPS', 6000000)
                env = SymEnv(w.pywt)
                env.rt = w.rt
                exc = None
                try:
                    with contextlib.suppress(Stop):
                        body(env, **cfg)
                except (Unsupported, CaseTimeout):
                    raise
                except UB as e:
                    env.structural.append(('ub', str(e)))
                except (NotImplementedError, RecursionError) as e:
                    env.structural.append(('exception', '%s: %s' % (type(e).__name__, e)))
                except Exception as e:
                    tb = traceback.format_exc(limit=-4)
                    env.structural.append(('exception', '%s: %s' % (type(e).__name__, e)))
                    env.tb = tb
                return env
            sym.reset_vars()
            sym_reset = True
            for ctx, env in explore.explore(one, max_paths=cfg.get('_max_paths', getattr(mod, 'MAX_PATHS', 600))):
                r['paths'] += 1
                r['obligations'] += len(env.obl) + env.nok
                r['structural'] += env.nok
                if env.structural:
                    kind, label = env.structural[0]
                    # reachability witness of this path
                    vals = None
                    t1 = time.time()
                    res = ctx.check()
                    if str(res) == 'sat':
                        vals = Discharge(env, ctx).values(ctx.solver.model())
                        vals = perturb_generic(vals, env, ctx)
                    r['fails'].append(dict(kind=kind, label=label, inputs=inputs_from(env, vals) if vals is not None else None,
                                           tb=getattr(env, 'tb', '')))
                    r['status'] = 'fail'
                    break
                d = Discharge(env, ctx).run()
                if d is not None:
                    kind, ob, vals = d
                    if kind == 'unknown':
                        r['status'] = 'unknown'
                        r['note'] = 'solver returned unknown'
                        break
                    r['status'] = 'fail'
                    if vals is None:        # the relaxation has a counterexample but no point was found: try an arbitrary one on the real code
                        vals = perturb_generic({'int:' + k: 1 for k in env.ints}, env, ctx, True)
                        if env.opq is not None:
                            env.opq.fill(vals, ev)
                    r['fails'].append(dict(kind='value', label=ob.label, inputs=inputs_from(env, vals) if vals is not None else None,
                                           poly=repr(ob.data)[:300]))
                    break
                if r['paths'] == 1 or (r['trace'] is None):
                    r['trace'] = make_trace(env, ctx, idx, single=not ctx.trail)
                envs.append(None)
    except Unsupported as e:
        r['status'] = 'unsupported'
        r['note'] = 'Unsupported: %s' % e
        r['tb'] = traceback.format_exc(limit=-6)
    except explore.PathLimit as e:
        r['status'] = 'unsupported'
        r['note'] = str(e)
    except CaseTimeout:
        r['status'] = 'timeout'
        r['note'] = 'case time limit %ds' % limit
    except MemoryError:
        r['status'] = 'unsupported'
        r['note'] = 'out of memory'
    except Exception as e:
        r['status'] = 'engine'
        r['note'] = '%s: %s' % (type(e).__name__, e)
        r['tb'] = traceback.format_exc(limit=-8)
    finally:
        signal.alarm(0)
    if r['status'] == 'ok' and r['obligations'] == 0:
        r['status'] = 'vacuous'
    r['queries'] = Q.queries - q0[0] + explore.STATS.queries - q0[2]
    r['qtime'] = Q.time - q0[1] + explore.STATS.solver_time - q0[3]
    r['wall'] = time.time() - t0
    r['fns'] = (sorted(w.rt.executed), sorted(w.cy.executed), sorted(_state['touch'].seen))
    return r


def perturb_generic(vals, env, ctx, force=False):
    """structural failures: prefer a generic point if the path has no forks"""
    if ctx.trail and not force:
        return vals
    rnd = random.Random(7)
    from fractions import Fraction
    for i, (lo, hi) in env.bounds.items():
        vals[i] = Fraction(str(lo)) + (Fraction(str(hi)) - Fraction(str(lo))) * Fraction(rnd.getrandbits(40) + 1, (1 << 40) + 2)
    return vals


def make_trace(env, ctx, idx, single):
    """concrete point on this path + the values the encoding predicts"""
    from .symenv import inputs_from, ev, Discharge
    from fractions import Fraction
    from .sym import Sx, Cx
    rnd = random.Random(1000003 * _state['seed'] + idx)
    if not env.actuals:
        return None
    if any(i not in env.bounds for a in env.actuals for x in a for p in ((x.re, x.im) if isinstance(x, Cx) else (x,))
           if isinstance(p, Sx) for k in p.t if k for i in ((k,) if k.__class__ is int else k)):
        return None
    if single:
        vals = {}
        for i, (lo, hi) in env.bounds.items():
            lo, hi = Fraction(str(lo)), Fraction(str(hi))
            vals[i] = Fraction(0) if i in env.noise else lo + (hi - lo) * Fraction(rnd.randint(0, 1 << 16), 1 << 16)
        for nm, (shape, dt, ids) in env.vars.items():
            if dt[-2] in 'iu' if len(dt) > 1 else False:
                for i in ids:
                    vals[i] = Fraction(round(vals[i]))
            elif dt[-2:] == 'f2':
                import numpy as np
                for i in ids:
                    vals[i] = Fraction(float(np.float16(float(vals[i]))))
        if env.opq is not None:
            env.opq.fill(vals, ev)
    else:
        if str(ctx.check()) != 'sat':
            return None
        vals = Discharge(env, ctx).values(ctx.solver.model())
        for i in vals:
            if Fraction(float(vals[i])) != vals[i]:
                return None
        import numpy as np
        for nm, (shape, dt, ids) in env.vars.items():
            dk = np.dtype(dt)           # the sampled point has to be representable in the input's dtype
            for i in (ids if isinstance(ids, list) else [ids]):
                for j in (i if isinstance(i, tuple) else (i,)):
                    v = float(vals[j])
                    if dk.kind in 'iu' and v != round(v):
                        return None
                    if dk.str[1:] in ('f2', 'f4', 'c8') and float(np.dtype('f2' if dk.str[1:] == 'f2' else 'f4').type(v)) != v:
                        return None
    out = []
    for a in env.actuals:
        o = []
        for x in a:
            if isinstance(x, Cx) or isinstance(x, complex):
                o.append([float(ev(x.real, vals)), float(ev(x.imag, vals))])
            else:
                o.append([float(ev(x, vals)), 0.0])
        out.append(o)
    return dict(inputs=inputs_from(env, vals), outs=out)


# ------------------------------------------------------------------ real side
def real_jobs(root, jobs, modname, timeout=60, san=False, perturb=None, nproc=6):
    """run jobs [(key, fn, cfg, inputs)] in real-package worker processes"""
    from . import realbuild
    res = {}
    chunks = [jobs[i::nproc] for i in range(nproc)]
    procs = []
    d = tempfile.mkdtemp(prefix='vreplay_')
    try:
        pend = [c for c in chunks if c]
        rounds = 0
        while pend and rounds < 60:
            rounds += 1
            procs = []
            for k, c in enumerate(pend):
                fi = os.path.join(d, 'j%d_%d.json' % (rounds, k))
                fo = os.path.join(d, 'o%d_%d.jsonl' % (rounds, k))
                with open(fi, 'w') as f:
                    json.dump(dict(mod=modname, jobs=c, timeout=timeout), f)
                fe = open(os.path.join(d, 'e%d_%d' % (rounds, k)), 'w+')
                p = subprocess.Popen([realbuild.VENV_PY, '-S', os.path.join(ROOT, 'engine', 'replay_worker.py'), fi, fo],
                                     env=realbuild.worker_env(root, san, perturb), stdout=fe, stderr=subprocess.STDOUT, cwd='/')
                procs.append((p, c, fo, fe))
            nxt = []
            for p, c, fo, fe in procs:
                p.wait()
                got = {}
                if os.path.exists(fo):
                    with open(fo) as f:
                        for l in f:
                            try:
                                x = json.loads(l)
                            except ValueError:
                                continue
                            got[x['key']] = x
                left = []
                crashed = False
                for j in c:
                    if j[0] in got:
                        res[j[0]] = got[j[0]]
                    elif not crashed:
                        crashed = True
                        fe.seek(0)
                        txt = fe.read()
                        res[j[0]] = dict(key=j[0], crash=p.returncode, fails=[['crash', 'process died with status %s: %s' % (p.returncode, _asan(txt))]], outs=[])
                    else:
                        left.append(j)
                if left:
                    nxt.append(left)
                fe.close()
            pend = nxt
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def _asan(txt):
    m = re.search(r'(AddressSanitizer|runtime error|SUMMARY)[^\n]*', txt)
    return m.group(0) if m else txt[-200:]


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVD, exist_ok=True)
    mod = importlib.import_module('checks.' + a.prop.lower())
    if hasattr(mod, 'run_custom'):
        return mod.run_custom(a.tier, seed)
    scratch = tempfile.mkdtemp(prefix='vchk_')
    try:
        return run(mod, a, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(mod, a, seed, t0, scratch):
    from . import loader, cbuild, realbuild
    prop = a.prop.upper()
    print('[%s] tier=%s' % (prop, a.tier), flush=True)
    builder = subprocess.Popen([sys.executable, '-m', 'engine.realbuild', scratch], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    cases = list(mod.cases(a.tier, seed))
    if a.only:
        cases = [c for c in cases if re.search(a.only, c[0])]
    names = [c[0] for c in cases]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    _state['mod'] = mod
    _state['seed'] = seed
    xres = None
    if hasattr(mod, 'extra') and (not a.only or a.only.startswith('extra')):
        xres = mod.extra(a.tier, seed, scratch)
    try:
        w = loader.world()
    except Exception as e:
        builder.wait()
        print('INCONCLUSIVE: engine could not load the tree: %s: %s' % (type(e).__name__, e))
        traceback.print_exc()
        return 2
    load_t = time.time() - t0
    limit = getattr(mod, 'CASE_LIMIT', {}).get(a.tier, 120 if a.tier == 'quick' else 600)
    budget = getattr(mod, 'BUDGET', {}).get(a.tier, 600 if a.tier == 'quick' else 800)
    nj = a.j or min(8, os.cpu_count() or 4)
    jobs = [(i, c, limit) for i, c in enumerate(cases)]
    # spread expensive cases: keep order given by the check
    results = [None] * len(jobs)
    ctx = mp.get_context('fork')
    if nj == 1:
        init_worker()
        for j in jobs:
            results[j[0]] = run_case(j)
            if a.v:
                print(results[j[0]]['name'], results[j[0]]['status'], '%.2f' % results[j[0]]['wall'], flush=True)
        signal.alarm(0)
    else:
        with ctx.Pool(nj, init_worker, maxtasksperchild=200) as pool:
            futs = [(j[0], pool.apply_async(run_case, (j,))) for j in jobs]
            dead = t0 + budget
            nfail = 0
            for i, f in futs:
                if nfail >= 60 or nfail >= 12 and time.time() - t0 > 120:     # enough counterexamples to report
                    results[i] = dict(name=cases[i][0], status='skipped', obligations=0, structural=0, paths=0, fails=[], trace=None,
                                      note='stopped after %d counterexamples' % nfail, queries=0, qtime=0, wall=0, fns=([], [], []))
                    continue
                try:
                    results[i] = f.get(max(1, dead - time.time()))
                    nfail += results[i]['status'] == 'fail'
                    if a.v:
                        print(results[i]['name'], results[i]['status'], '%.2f' % results[i]['wall'], results[i]['note'], flush=True)
                except mp.TimeoutError:
                    results[i] = dict(name=cases[i][0], status='timeout', obligations=0, structural=0, paths=0, fails=[], trace=None,
                                      note='check time budget', queries=0, qtime=0, wall=0, fns=([], [], []))
            pool.terminate()
    sym_t = time.time() - t0 - load_t
    out = builder.communicate()[0]
    if builder.returncode:
        print('INCONCLUSIVE: the real package does not build: %s' % out[-1500:])
        return 2
    root = os.path.join(scratch, 'real')
    modname = mod.__name__
    # ---- replay counterexamples
    known = [k for k in load_known() if k['property'] == prop]
    failing = [(i, r) for i, r in enumerate(results) if r['status'] == 'fail']
    # only replay a bounded number of counterexamples per label kind
    viol, unrepro, knownhit = [], [], []
    sel = failing[:getattr(mod, 'MAX_REPLAY', 60)]
    if sel:
        jobs = [(str(i), cases[i][1], cases[i][2], r['fails'][0]['inputs'] or {}) for i, r in sel]
        if hasattr(mod, 'STRESS'):
            os.environ['VERIF_STRESS'] = str(mod.STRESS)
        rr = real_jobs(root, jobs, modname, timeout=60 if hasattr(mod, 'STRESS') else 30, nproc=2 if hasattr(mod, 'STRESS') else 6)
        os.environ.pop('VERIF_STRESS', None)
        need = [j for j in jobs if not rr[j[0]]['fails']]
        if need:
            need_u = [j for j in need if results[int(j[0])]['fails'][0]['kind'] in ('uninit', 'ub')]
            if need_u:
                for pert in (0xA5, 0x3C):
                    r2 = real_jobs(root, need_u, modname, timeout=30, perturb=pert)
                    for k, v in r2.items():
                        if v['fails'] and not rr[k]['fails']:
                            rr[k] = v
            need_a = [j for j in need_u if not rr[j[0]]['fails']][:12]
            if need_a:
                p = subprocess.run([sys.executable, '-m', 'engine.realbuild', scratch, 'asan'], cwd=ROOT)
                if p.returncode == 0:
                    r2 = real_jobs(os.path.join(scratch, 'real_asan'), need_a, modname, timeout=60, san=True)
                    for k, v in r2.items():
                        if v['fails']:
                            rr[k] = v
        for i, r in sel:
            k = [x for x in known if re.fullmatch(x['case'], r['name'])]
            x = rr[str(i)]
            if not x['fails']:
                unrepro.append((i, r))
            elif k:
                knownhit.append((i, r, k[0], x))
            else:
                viol.append((i, r, x))
    # ---- validate the encoding on concrete traces
    tr = [(i, r) for i, r in enumerate(results) if r.get('trace')]
    rnd = random.Random(seed)
    maxtr = getattr(mod, 'TRACES', {}).get(a.tier, 150 if a.tier == 'quick' else 600)
    if len(tr) > maxtr:
        tr = rnd.sample(tr, maxtr)
    mism = []
    nval = 0
    if tr:
        rr = real_jobs(root, [(str(i), cases[i][1], cases[i][2], r['trace']['inputs']) for i, r in tr], modname, timeout=60, nproc=8)
        for i, r in tr:
            x = rr[str(i)]
            if x['fails']:
                k = [q for q in known if re.fullmatch(q['case'], r['name'])]
                if not k:
                    r['fails'] = [dict(kind='replay', label='real build violates the body on a concrete trace', inputs=r['trace']['inputs'])]
                    viol.append((i, r, x))
                continue
            e = cmp_trace(r['trace']['outs'], x['outs'], getattr(mod, 'TRACE_TOL', 1e-4 if re.search(r'"(f4|f2|c8)"|float32|float16|complex64', json.dumps(cases[i][2])) else 1e-7), magnitude(r['trace']['inputs']))
            if e:
                mism.append((r['name'], e))
            else:
                nval += 1
    wall = time.time() - t0
    # ---- report
    stat = {}
    for r in results:
        stat[r['status']] = stat.get(r['status'], 0) + 1
    undec = [r for r in results if r['status'] not in ('ok', 'fail')]
    fns = [sorted(set().union(*[set(r['fns'][k]) for r in results])) for k in range(3)]
    tot = lambda k: sum(r[k] for r in results)
    code = 0
    for i, r, k, x in knownhit:
        pass
    for k in sorted({k['id'] for _, _, k, _ in knownhit}):
        kk = [q for q in known if q['id'] == k][0]
        print('KNOWN-FINDING: property=%s %s' % (prop, kk['what']))
    os.makedirs(os.path.join(EVD, 'replay'), exist_ok=True)
    vlist = []
    for n, (i, r, x) in enumerate(viol[:5]):
        path = os.path.join(EVD, 'replay', '%s_%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, module=modname, case=r['name'], fn=cases[i][1], cfg=cases[i][2], inputs=r['fails'][0]['inputs'],
                           engine=r['fails'][0], real=x['fails'], how='python3 /verif/replay.py ' + path), f, indent=1)
        print('counterexample: case %s: %s | %s | real build: %s' % (r['name'], r['fails'][0]['kind'], r['fails'][0]['label'], x['fails'][0]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        vlist.append(dict(case=r['name'], label=str(r['fails'][0]['label']), replay=path))
        code = 1
    if xres:
        for n, v in enumerate(xres['violations'][:5]):
            path = os.path.join(EVD, 'replay', '%s_x%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, how='python3 /verif/replay.py ' + path, **v['replay']), f, indent=1)
            print('counterexample: case %s: %s | real code: %s' % (v['case'], v['what'], v['real']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            vlist.append(dict(case=v['case'], label=v['what'], replay=path))
            code = 1
        for n, why in xres['undecided'][:10]:
            print('UNDECIDED: case %s: %s' % (n, why))
    for i, r in unrepro[:10]:
        print('NOT-REPRODUCED: case %s: %s %s' % (r['name'], r['fails'][0]['kind'], r['fails'][0]['label']))
        if a.v or a.only:
            print(r['fails'][0].get('tb'), r['fails'][0].get('poly'), str(r['fails'][0]['inputs'])[:500])
    for r in undec[:10]:
        print('UNDECIDED: case %s: %s %s' % (r['name'], r['status'], r['note']))
        if (a.v or a.only) and r.get('tb'):
            print(r['tb'])
    for m in mism[:10]:
        print('ENCODING-MISMATCH: case %s: %s' % m)
    if code == 0:
        bad = len(undec) + len(unrepro) + len(mism)
        if bad and (bad > max(0.3 * len(results), 0)):
            code = 2
        if xres and len(xres['undecided']) > 0.3 * max(1, xres['cases']):
            code = 2
    ev = dict(property=prop, tier=a.tier, seed=seed, level='other',
              coverage=dict(
                  explanation=(getattr(mod, 'EXPLAIN', '') or (mod.__doc__ or '')).strip() +
                  ' Every listed case is executed symbolically from the current sources (C through clang LLVM IR, Cython and Python from source); the data are SMT reals bounded as stated and z3 decides the negated assertion for all of them.',
                  cases=len(results), cases_by_status=stat, obligations=tot('obligations'), structural_obligations=tot('structural'),
                  symbolic_paths=tot('paths'), solver_queries=tot('queries'), solver_time_s=round(tot('qtime'), 3),
                  traces_validated_against_impl=nval, trace_mismatches=len(mism),
                  functions_encoded=dict(c_ir=fns[0], cython=fns[1], python=fns[2]),
                  bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
                  undecided=[dict(case=r['name'], why=r['note']) for r in undec][:50],
                  not_reproduced=[r['name'] for _, r in unrepro][:50],
                  known_findings=sorted({k['id'] for _, _, k, _ in knownhit}),
                  samples=[dict(case=r['name'], obligations=r['obligations'], paths=r['paths'], queries=r['queries']) for r in results[:5]]),
              assumptions=getattr(mod, 'ASSUMPTIONS', DEFAULT_ASSUME), wall_s=round(wall, 2), violations=vlist)
    if xres:
        ev['coverage'].update(xres['coverage'])
    with open(os.path.join(EVD, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('[%s] cases=%d %s obligations=%d paths=%d queries=%d solver=%.1fs traces=%d/%d load=%.1fs sym=%.1fs wall=%.1fs -> exit %d' % (
        prop, len(results), stat, tot('obligations'), tot('paths'), tot('queries'), tot('qtime'), nval, len(tr), load_t, sym_t, wall, code), flush=True)
    if a.v:
        for r in sorted(results, key=lambda r: -r['wall'])[:8]:
            print('  slow', r['name'], '%.1f' % r['wall'])
    return code


DEFAULT_ASSUME = [
    'Data values are modelled as exact reals (no floating-point rounding in the data path); comparisons use the stated tolerance.',
    'clang -O1-frontend lowering plus sroa/simplifycfg represents the C sources; the Cython sources are translated by the engine; both are validated on concrete traces against a real build in every run.',
    'numpy operations used by the package follow the engine\'s model (engine/symnp.py).',
]


def magnitude(v):
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        return max([0.0] + [magnitude(q) for q in v])
    return abs(float(v)) if isinstance(v, (int, float)) and v == v and abs(v) != float('inf') else 0.0


def cmp_trace(exp, got, tol, scale=1.0):
    if len(exp) != len(got):
        return 'number of recorded results %d vs %d' % (len(exp), len(got))
    sc = max([1.0, scale] + [abs(complex(*x)) for e in exp for x in e if x[0] == x[0] and abs(x[0]) != float('inf')])
    for k, (e, g) in enumerate(zip(exp, got)):
        if len(e) != len(g):
            return 'result %d length %d vs %d' % (k, len(e), len(g))
        for i, (x, y) in enumerate(zip(e, g)):
            x, y = complex(*x), complex(*y)
            if x != x and y != y or x == y:
                continue
            if not abs(x - y) <= tol * sc:
                return 'result %d element %d: encoding %r real %r' % (k, i, x, y)
    return None


if __name__ == '__main__':
    sys.exit(main())
