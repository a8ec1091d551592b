"""Check driver:  python check.py C01 [--tier quick|thorough] [--only NAME]

Runs every contract of a property: symbolic proof, then replay/cross-check/search on the real modules; writes the evidence
file; prints VIOLATION / KNOWN-FINDING lines; exits 0 or 1."""
import os, sys, time, json, traceback, importlib, multiprocessing as mp, argparse, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

REPO = os.environ.get('PV_REPO', '/repo')


class Contract:
    def __init__(self, prop, name, f, **opt):
        self.prop, self.name, self.f = prop, name, f
        self.opt = opt

    @property
    def bounded(self):
        return self.opt.get('bounded')


REG = []


def contract(prop, name=None, **opt):
    """register a contract (options: bounded='text', budget=s, concrete=n, paths=n, unbounded=bool, tol, needs=...)"""
    def dec(f):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            REG.append(Contract(p, name or f.__name__, f, **opt))
        return f
    return dec


def load_contracts(prop):
    import glob
    for f in sorted(glob.glob(os.path.join(ROOT, 'contracts', '*.py'))):
        b = os.path.basename(f)[:-3]
        if b.startswith('_'):
            continue
        if b.split('_')[0].upper() == prop:
            importlib.import_module('contracts.' + b)
    return [c for c in REG if c.prop == prop]


# ---- symbolic part (one process per contract) ----------------------------------------------------
def sym_worker(args):
    prop, name, tier, repo = args
    ct = [c for c in load_contracts(prop) if c.name == name][0]
    out = sym_run(args, 'sym')
    if ct.opt.get('rows') and not out['complete'] and any('unsupported' in u for u in out['undecided']):
        # not row by row: fall back to a bounded number of rows
        o2 = sym_run(args, 'bounded')
        if o2['complete'] or not out['obligations']:
            o2['fallback_bounded'] = 'number of rows <= 3 (unbounded form: %s)' % out['undecided'][:1]
            return o2
    if ct.opt.get('loops') and (not out['complete'] or any(o['status'] != 'proved' and not o.get('definedness') for o in out['obligations'])):
        # an invariant does not carry over (or the loop has another shape): bounded sizes, loops unrolled
        o2 = sym_run(args, 'bounded')
        bad = ['%s: %s %s %s' % (o['name'], o['status'], o.get('goal', '')[:150], o.get('why', '')[-300:]) for o in out['obligations'] if o['status'] != 'proved'][:3]
        if not o2['obligations']:
            out['complete'] = False
            return out
        o2['fallback_bounded'] = 'sizes <= 3 (unbounded form: %s)' % ((out['undecided'] + bad)[:2])
        return o2
    return out


def watch(repo):
    """the set of functions of the repository whose bodies get executed (filled in while they are)"""
    m, seen, base = sys.monitoring, set(), os.path.join(repo, '')

    def start(code, offset):
        f = code.co_filename
        if f.startswith(base) and not code.co_qualname.startswith('<') and '<' not in code.co_name:
            seen.add(f[len(base):-3].replace(os.sep, '.') + '.' + code.co_qualname)
        return m.DISABLE
    if m.get_tool(3) is None:
        m.use_tool_id(3, 'pv')
        m.register_callback(3, m.events.PY_START, start)
        m.set_events(3, m.events.PY_START)
    else:
        m.register_callback(3, m.events.PY_START, start)
        m.restart_events()
    return seen


class Hang(BaseException):
    """the code under check used up its processor time"""


def cpu_limit(seconds):
    """raise Hang after so many seconds of this process's own processor time (0: no limit)"""
    import signal

    def ring(*a):
        raise Hang()
    signal.signal(signal.SIGVTALRM, ring)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def sym_run(args, rows_mode):
    prop, name, tier, repo = args
    t0 = time.time()
    out = dict(name=name, obligations=[], paths=0, complete=True, undecided=[], targets=[], observed=[], covers=0, time=0)
    try:
        os.environ['VERIF_TIER'] = tier
        from pv import run, loader, smt, loops, terms as T
        ct = [c for c in load_contracts(prop) if c.name == name][0]
        budget = ct.opt.get('budget', 60) * (4 if tier == 'thorough' else 1)
        maxp = ct.opt.get('paths', 400) * (4 if tier == 'thorough' else 1)
        ld = loader.Loader(repo)
        out['executed'] = executed = watch(repo)
        out['modular'], out['stubs'], out['axioms'] = set(), set(), set()
        deadline = t0 + budget
        cpu_limit(budget * 1.5 + 30)
        work = [[]]
        while work:
            if time.time() > deadline or out['paths'] >= maxp:
                out['complete'] = False
                out['undecided'].append('path budget: %d paths left unexplored' % len(work))
                break
            prefix = work.pop()
            c = run.SymCtx(ld, prefix, deadline, timeout_ms=ct.opt.get('timeout', 4000) * (4 if tier == 'thorough' else 1))
            c.unbounded = bool(ct.opt.get('unbounded'))
            c.rows_mode = rows_mode
            c.ite_mode = bool(ct.opt.get('ite'))
            c.loop_mode = rows_mode == 'sym' and bool(ct.opt.get('loops'))
            T.CTX[0] = c
            done = False
            try:
                ct.f(c)
                done = True
            except run.PathDead:
                c.results = []
            except loops.PathDone:
                done = True
            except (T.Unsupported,) as e:
                out['complete'] = False
                out['undecided'].append('unsupported: %s %s' % (e, _where()))
            except run.Budget:
                out['complete'] = False
                out['undecided'].append('time budget')
            except run.P.TooBig:
                out['complete'] = False
                out['undecided'].append('term too big')
            except Hang:
                out['complete'] = False
                out['undecided'].append('processor time')
            except run.Reject:
                pass
            except RecursionError as e:
                if os.environ.get('PV_DEBUG'):
                    tb = traceback.format_exc().split('\n')
                    print('\n'.join(tb[:40]), flush=True)
                out['complete'] = False
                out['undecided'].append('recursion limit')
            except Exception as e:
                w = traceback.format_exc(limit=-6)
                c.results.append(dict(name='no unexpected exception (%s)' % type(e).__name__, status='refuted', backend='exec', conjuncts=1, time=0,
                                      goal='%s: %s' % (type(e).__name__, str(e)[:200]), why=w[-1500:], model=c.complete_model(None), exception=True))
                done = True
            finally:
                T.CTX[0] = c
                try:
                    if done:
                        c.check_definedness()
                except (T.Unsupported, run.Budget, run.PathDead):
                    pass
                T.CTX[0] = None
                c.finish()
            work.extend(c.pending)
            if done:
                out['paths'] += 1
                import numpy as np
                idx = np.flatnonzero(c.mask)
                if len(idx):
                    out['covers'] += 1
                if c.observed and not getattr(c, 'uses_function', False) and len(idx) and len(out['observed']) < 4 and c.margin_sample() is not None:
                    k = c.margin_sample()
                    vals = []
                    for nm, ns in c.observed:
                        try:
                            vals.append((nm, [float(c.samples.eval(n)[k]) for n in ns]))
                        except Exception:
                            pass
                    out['observed'].append((c.sample_model(k), vals))
            for r in c.results:
                r['path'] = out['paths']
            out['obligations'] += c.results
            out['targets'] = sorted(set(out['targets']) | c.targets)
            out['modular'] |= c.modular
            out['stubs'] |= set(c.stubs)
            out['axioms'] |= set(getattr(c, 'axioms', []))
            if sum(1 for r in out['obligations'] if r['status'] == 'refuted' and not r.get('definedness')) > 40:
                out['complete'] = False
                out['undecided'].append('stopped after 40 failed obligations')
                break
        names = {r['name'] for r in out['obligations']}
        for n in sorted(names):
            if n.endswith(': invariant on entry') and n[:-8] + 'preserved' not in names and n.replace('invariant on entry', 'invariant preserved') not in names:
                out['complete'] = False
                out['undecided'].append('%s: no iteration was examined' % n[:-20])
        out['smt'] = dict(smt.STATS)
        cpu_limit(0)
    except BaseException as e:
        cpu_limit(0)
        out['complete'] = False
        out['undecided'].append('verifier error: ' + traceback.format_exc()[-1500:])
    out['time'] = round(time.time() - t0, 2)
    return out


def _where():
    tb = sys.exc_info()[2]
    last = ''
    while tb:
        fn = tb.tb_frame.f_code.co_filename
        if REPO in fn:
            last = '(%s:%d)' % (os.path.relpath(fn, REPO), tb.tb_lineno)
        tb = tb.tb_next
    return last


# ---- concrete part ---------------------------------------------------------------------------------
def run_concrete(ct, model, idx, seed):
    """-> ('ok'|'reject'|'fail', failures, ctx)"""
    from pv import run
    import numpy as np, io, contextlib
    c = run.ConcreteCtx(model, idx, seed, tol=ct.opt.get('tol', 1e-6))
    try:
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            cpu_limit(ct.opt.get('hang', 60))
            try:
                ct.f(c)
            finally:
                cpu_limit(0)
    except Hang:
        return 'fail', c.failures + ['does not end within %s s of processor time' % ct.opt.get('hang', 60)], c
    except run.Reject:
        return 'reject', [], c
    except run.T.Unsupported as e:
        return 'reject', [], c
    except Exception as e:
        if ct.opt.get('exc_ok') and isinstance(e, ct.opt['exc_ok']):
            return 'reject', [], c
        return 'fail', c.failures + ['unexpected exception %s: %s' % (type(e).__name__, str(e)[:200])], c
    return ('fail' if c.failures else 'ok'), c.failures, c


def conc_worker(args):
    prop, name, tier, repo, seed, models, observed, n, budget = args
    t0 = time.time()
    out = dict(name=name, replayed=[], evaluations=0, accepted=0, failures=[], crosscheck=0, mismatch=[], error=None)
    try:
        import warnings, logging
        warnings.simplefilter('ignore')
        logging.disable(logging.CRITICAL)
        os.environ['NUMBA_DISABLE_JIT'] = '1'
        sys.path.insert(0, repo)
        import numpy as np
        np.seterr(all='ignore')
        ct = [c for c in load_contracts(prop) if c.name == name][0]
        if ct.opt.get('unbounded') or ct.opt.get('sym_only'):
            return out
        # cross-check of the symbolic engine against CPython/numpy on the same inputs
        for model, vals in observed:
            st, fl, c = run_concrete(ct, model, 0, seed)
            if st == 'reject':
                continue
            out['crosscheck'] += 1
            for (nm, a), (nm2, b) in zip(vals, c.obs):
                a, b = np.array(a), np.array(b)
                if nm != nm2 or a.shape != b.shape:
                    out['mismatch'].append('%s: shape %s vs %s' % (nm, a.shape, b.shape))
                    break
                ok = np.isnan(a) | (np.abs(a - b) <= 1e-4 * (1 + np.abs(a) + np.abs(b)))
                if not ok.all():
                    out['mismatch'].append('%s: %s vs %s on %s' % (nm, a.tolist(), b.tolist(), {k: v for k, v in model.items()}))
        # replay of the verifier's counterexamples
        for ob, model in models:
            st, fl, c = run_concrete(ct, model, 0, seed)
            out['replayed'].append((ob, st, fl, c.used if st == 'fail' else None))
            if st == 'fail':
                out['failures'].append(dict(kind='counterexample', obligation=ob, clauses=fl, inputs=_json(c.used)))
                if len(out['failures']) > 3 or 'does not end' in fl[-1]:
                    break
        # bounded search with generated inputs (never counted as proof)
        for i in range(n):
            if time.time() - t0 > budget or len(out['failures']) > 3 or any('does not end' in f['clauses'][-1] for f in out['failures']):
                break
            st, fl, c = run_concrete(ct, None, i + 1, seed)
            out['evaluations'] += 1
            if st != 'reject':
                out['accepted'] += 1
                if 'sample' not in out:
                    out['sample'] = _json(c.used)
            if st == 'fail':
                out['failures'].append(dict(kind='search', obligation=fl[0], clauses=fl, inputs=_json(c.used)))
                if 'does not end' in fl[-1]:
                    break
    except BaseException as e:
        out['error'] = traceback.format_exc()[-1500:]
    out['time'] = round(time.time() - t0, 2)
    return out


def _json(u):
    def f(v):
        if isinstance(v, dict):
            return {str(k): f(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [f(x) for x in v]
        if isinstance(v, (int, float, str, bool)) or v is None:
            return v
        try:
            return float(v)
        except Exception:
            return str(v)
    return f(u)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get('property') == prop and e.get('status') == 'known':
                out.append(e)
    return out


def is_known(known, contract_name, clauses):
    for e in known:
        if e['contract'] == contract_name and all(any(k in cl for k in e['clauses']) for cl in clauses):
            return e
    return None


def each(it, n, deadline):
    """the results that arrive before the deadline"""
    for _ in range(n):
        try:
            yield it.next(timeout=max(1, deadline - time.time()))
        except mp.TimeoutError:
            return


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--repo', default=REPO)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.environ['PV_REPO'] = a.repo
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.setrecursionlimit(20000)
    cts = load_contracts(prop)
    if a.only:
        cts = [c for c in cts if a.only in c.name]
    if not cts:
        print('no contracts for', prop)
        sys.exit(2)
    if a.replay:
        rp = json.load(open(a.replay))
        ct = [c for c in load_contracts(prop) if c.name == rp['contract']][0]
        os.environ['NUMBA_DISABLE_JIT'] = '1'
        sys.path.insert(0, a.repo)
        st, fl, c = run_concrete(ct, rp['inputs'], 0, seed)
        print('replay of', rp['contract'], ':', st, fl)
        sys.exit(1 if st == 'fail' else 0)
    nproc = min(8, os.cpu_count() or 4)
    total = 840 if tier == 'quick' else 6000
    ctxm = mp.get_context('fork')
    syms = {}
    jobs = [(prop, c.name, tier, a.repo) for c in cts if not c.opt.get('concrete_only')]
    with ctxm.Pool(nproc, maxtasksperchild=1) as pool:
        for r in each(pool.imap_unordered(sym_worker, jobs, chunksize=1), len(jobs), t0 + total * 0.75):
            syms[r['name']] = r
            if a.v:
                st = {}
                for o in r['obligations']:
                    st[o['status']] = st.get(o['status'], 0) + 1
                print('  [sym] %-45s %s paths=%d %.1fs %s' % (r['name'], st, r['paths'], r['time'], r['undecided'][:2]), flush=True)
    conc = {}
    jobs = []
    left = max(30, total - (time.time() - t0))
    for c in cts:
        s = syms.get(c.name, dict(obligations=[], observed=[], complete=False, undecided=[]))
        models, seen = [], {}
        for o in s['obligations']:
            if o['status'] != 'proved' and o.get('model') is not None:
                k = (o['name'])
                if seen.get(k, 0) < 4:
                    seen[k] = seen.get(k, 0) + 1
                    models.append((o['name'], o['model']))
        models.sort(key=lambda m: 0)
        undecided = not s['complete'] or any(o['status'] != 'proved' and not o.get('definedness') for o in s['obligations'])
        n = c.opt.get('concrete', 60)
        if undecided:
            n = max(n, c.opt.get('concrete_fallback', 10 * n))
        if tier == 'thorough':
            n *= 10
        bud = min(left * 0.6, c.opt.get('concrete_budget', 60 if undecided else 25) * (6 if tier == 'thorough' else 1))
        jobs.append((prop, c.name, tier, a.repo, seed, models[:40], s.get('observed', []), n, bud))
    with ctxm.Pool(nproc, maxtasksperchild=1) as pool:
        for r in each(pool.imap_unordered(conc_worker, jobs, chunksize=1), len(jobs), t0 + total):
            conc[r['name']] = r
            if a.v and (r['error'] or r['mismatch'] or r['failures'] or a.only):
                print('  [conc] %-45s eval=%d ok=%d cross=%d fails=%d %.1fs' % (r['name'], r['evaluations'], r['accepted'], r['crosscheck'], len(r['failures']), r.get('time', 0)), flush=True)
                if r['error']:
                    print(r['error'])
                for m in r['mismatch'][:3]:
                    print('     MISMATCH', m[:600])
                for f in r['failures'][:3]:
                    print('     FAIL', f['kind'], f['clauses'][:4], str(f['inputs'])[:500])
    finish(prop, tier, seed, a, cts, syms, conc, t0)


def finish(prop, tier, seed, a, cts, syms, conc, t0):
    known = known_findings(prop)
    violations, notes, kf = [], [], {}
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    nobl = ndis = nbounded = ndef = ndefu = 0
    byback = {}
    rep, assumptions = [], []
    for c in cts:
        s = syms.get(c.name) or dict(obligations=[], paths=0, complete=False, undecided=['not attempted symbolically'], targets=[], covers=0, time=0)
        r = conc.get(c.name) or dict(replayed=[], evaluations=0, accepted=0, failures=[], crosscheck=0, mismatch=[], error='no answer in time')
        clauses = {}
        for o in s['obligations']:
            k = o['name']
            e = clauses.setdefault(k, dict(n=0, proved=0, backends=set(), bad=[], definedness=o.get('definedness', False)))
            e['n'] += 1
            if o['status'] == 'proved':
                e['proved'] += 1
                e['backends'].update(o['backend'].split('+'))
            else:
                e['bad'].append(o)
        fails = list(r['failures'])
        unkn = []
        for f in fails:
            e = is_known(known, c.name, f['clauses'])
            if e:
                kf[e['id']] = e
            else:
                unkn.append(f)
        # definite refutation that could not be replayed
        norep = []
        if not fails:
            tried = {x[0]: x[1] for x in r['replayed']}
            for k, e in clauses.items():
                for o in e['bad']:
                    if o['status'] == 'refuted' and not o.get('definedness') and not o.get('exception') and (c.opt.get('unbounded') or c.opt.get('sym_only')):
                        if not is_known(known, c.name, [k]):
                            norep.append((k, o))
                        else:
                            kf[is_known(known, c.name, [k])['id']] = is_known(known, c.name, [k])
        if unkn:
            f = unkn[0]
            path = os.path.join(ROOT, 'evidence', 'replay', '%s-%s.json' % (prop, c.name))
            ob = next((o for k, e in clauses.items() for o in e['bad'] if k == f['obligation']), None)
            json.dump(dict(property=prop, contract=c.name, found_by=f['kind'], failed_clauses=f['clauses'], inputs=f['inputs'],
                           failed_obligation=({k: v for k, v in ob.items() if k != 'model'} if ob else f['obligation']),
                           how='python pv/check.py %s --replay %s' % (prop, path)), open(path, 'w'), indent=1, default=str)
            violations.append((path, ''))
            notes.append('%s: %s' % (c.name, f['clauses'][:3]))
        elif norep:
            k, o = norep[0]
            path = os.path.join(ROOT, 'evidence', 'replay', '%s-%s.json' % (prop, c.name))
            json.dump(dict(property=prop, contract=c.name, failed_obligation=k, verifier_output=o, inputs=None), open(path, 'w'), indent=1, default=str)
            violations.append((path, ' no-failing-input-found'))
            notes.append('%s: %s (obligation refuted)' % (c.name, k))
        cov = bool(s.get('covers')) or c.opt.get('unbounded') or c.opt.get('concrete_only') or r['accepted'] > 0
        contract_ok = s['complete'] and s['paths'] > 0 and cov
        assumptions += ['contract of a dependency assumed: %s / %s' % (c.name, x) for x in sorted(s.get('stubs') or ())]
        assumptions += ['mathematical fact assumed: %s / %s' % (c.name, x) for x in sorted(s.get('axioms') or ())]
        rec = dict(contract=c.name, functions=s['targets'], bodies_verified=sorted(s.get('executed') or ()), callee_contracts=sorted(s.get('modular') or ()), paths=s['paths'], complete=bool(s['complete']), undecided=s['undecided'][:3],
                   clauses={k: dict(vcs=e['n'], proved=e['proved'], by=sorted(e['backends'])) for k, e in clauses.items()},
                   bounded=c.opt.get('bounded') or s.get('fallback_bounded'), solver_time_s=s['time'], witness_paths=s.get('covers', 0),
                   cross_checked_runs=r['crosscheck'], engine_mismatch=r['mismatch'][:2], concrete_runs=r['accepted'])
        if r['error']:
            rec['concrete_error'] = r['error'][-400:]
        rep.append(rec)
        for k, e in clauses.items():
            ok = e['proved'] == e['n'] and contract_ok and not r['mismatch']
            if e['definedness']:
                ndef += 1
                if not ok:
                    ndefu += 1
                    assumptions.append('definedness assumed: %s / %s' % (c.name, k))
                continue
            if c.opt.get('bounded') or s.get('fallback_bounded'):
                nbounded += 1
                continue
            nobl += 1
            if ok:
                ndis += 1
                for b in e['backends']:
                    byback[b] = byback.get(b, 0) + 1
            else:
                assumptions.append('not discharged (checked only by bounded search): %s / %s' % (c.name, k))
        if not clauses and not c.opt.get('concrete_only'):
            nobl += 0 if c.opt.get('bounded') else 1
            assumptions.append('no obligation could be generated for %s: %s' % (c.name, s['undecided'][:1]))
    man = {}
    try:
        for m in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']:
            man[m['property']] = m
    except Exception:
        pass
    level = man.get(prop, {}).get('level', 'proof')
    smt_calls = sum((s.get('smt') or {}).get('z3_calls', 0) for s in syms.values())
    smt_time = sum((s.get('smt') or {}).get('z3_time', 0) + (s.get('smt') or {}).get('cvc5_time', 0) for s in syms.values())
    trusted = ['pv (this verifier: term language, polynomial prover, path exploration)', 'z3 5.3.2 / cvc5 1.1.2',
               'CPython and numpy object-array semantics (cross-checked against float runs on each contract)']
    base_assume = ['machine floating point treated as mathematical reals; float literals as the decimal numbers written',
                   'elementary functions sin, cos, sqrt, acos, atan2 treated as their mathematical definitions',
                   'numba-compiled functions verified as the Python source they are compiled from']
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd='python pv/check.py %s' % prop, trusted_base=trusted,
                            bounded_obligations=nbounded, definedness_obligations=ndef, definedness_undischarged=ndefu,
                            functions_under_contract=sorted({t for s in syms.values() for t in s['targets']}),
                            functions_verified=sorted({t for s in syms.values() for t in s.get('executed') or ()}),
                            discharged_by_back_end=byback, solver_calls=smt_calls, solver_time_s=round(smt_time, 2),
                            contracts=rep, evaluations=sum(r['evaluations'] for r in conc.values()),
                            samples=[r['sample'] for r in conc.values() if 'sample' in r][:2],
                            explanation='obligations = named postcondition/invariant/frame clauses without a size bound; each is discharged on every path of the '
                                        'real code. bounded_obligations hold for the stated sizes only and are not counted as proved.'),
              assumptions=base_assume + assumptions[:120], wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d bounded, %d/%d definedness, %d contracts, %.1fs' % (
        prop, ndis, nobl, nbounded, ndef - ndefu, ndef, len(cts), time.time() - t0))
    if a.v:
        for x in assumptions:
            print('   ', x)
        for c in cts:
            s = syms.get(c.name)
            if s:
                if s['undecided']:
                    print('   %s undecided: %s' % (c.name, s['undecided'][:3]))
                if s.get('fallback_bounded'):
                    print('   %s bounded: %s' % (c.name, s['fallback_bounded']))
                for o in s['obligations']:
                    if o['status'] != 'proved' and not o.get('definedness'):
                        print('   %s / %s: %s [%s] %s %s' % (c.name, o['name'], o['status'], o['backend'], o.get('goal', '')[:200], o.get('why', '')[-500:]))
                        break
    for e in kf.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    for n in notes:
        print('  broken:', n)
    for path, suffix in violations[:1]:
        print('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    # contracts import `pv.check`: make that this very module
    sys.modules['pv.check'] = sys.modules['__main__']
    main()
