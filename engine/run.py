"""Decide one property: explore its harness cases symbolically, discharge the
obligations with z3, replay counterexamples and witnesses on the real code."""
import glob
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Found(BaseException):
    """A counterexample of an obligation on the current path."""

    def __init__(self, label, msg, values, abstract):
        self.label, self.msg = label, msg
        self.values = values
        self.abstract = abstract


class Replayer:
    def __init__(self, scratch):
        self.scratch = scratch
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ, NUMBA_ENABLE_CUDASIM='1',
                   PYTHONDONTWRITEBYTECODE='1', MKL_NUM_THREADS='2',
                   OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2',
                   NUMBA_NUM_THREADS='4', PYTHONWARNINGS='ignore',
                   NUMBA_CACHE_DIR=os.path.join(self.scratch, 'nb'),
                   HOME=self.scratch, TMPDIR=self.scratch,
                   JOBLIB_TEMP_FOLDER=self.scratch)
        self.p = subprocess.Popen(
            [sys.executable, '-m', 'engine.replay', self.scratch],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, cwd=HERE, text=True)

    def run(self, prop, case, values, timeout=150):
        """An error is reported only if a fresh server meets it too."""
        out = self.once(prop, case, values, timeout)
        if out['status'] == 'error':
            self.close()
            out = self.once(prop, case, values, timeout)
        return out

    def once(self, prop, case, values, timeout):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.n += 1
        self.p.stdin.write(json.dumps(
            {'prop': prop, 'case': case, 'values': values}) + "\n")
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.close()
            return {'status': 'timeout', 'failures': [], 'records': []}
        line = self.p.stdout.readline()
        if not line:
            self.close()
            return {'status': 'crash', 'failures': [], 'records': []}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None


class CaseRunner:
    def __init__(self, prop, case, tier, seed, scratch, deadline, replayer,
                 quota):
        self.prop, self.case, self.tier = prop, case, tier
        self.rng = random.Random("%s/%s/%s" % (seed, prop.id, case.name))
        self.scratch = scratch
        self.deadline = deadline
        self.rep = replayer
        self.check_ms = 20000 if tier == 'quick' else 90000
        self.obl = self.triv = self.disch = self.unk = 0
        self.path_unknown = []
        self.labels = set()
        self.known = load_known(prop.id)

    # ---- obligations ----------------------------------------------------
    def trivial(self, label):
        self.obl += 1
        self.triv += 1
        self.disch += 1
        self.labels.add(label)

    def _solve(self, extra, ms):
        """sat/unsat/unknown of pc & extra in a fresh solver (+ model)."""
        import z3
        from engine.sym import ENG
        t = time.time()
        ms = int(min(ms, max(1000, (self.deadline - t) * 1000)))
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', 1)
        for e in ENG.pc:
            s.add(e)
        for e in extra:
            s.add(e)
        r = s.check()
        ENG.stats.queries += 1
        m = s.model() if r == z3.sat else None
        ENG.stats.solver_s += time.time() - t
        return str(r), m

    def refute(self, label, neg, msg):
        self.obl += 1
        self.labels.add(label)
        r, m = self._solve(neg, self.check_ms)
        if r == 'unsat':
            if not neg:
                from engine.sym import Infeasible
                raise Infeasible()
            self.disch += 1
            return
        if r == 'unknown':
            self.unk += 1
            self.path_unknown.append(label)
            return
        self._found(label, neg, m, msg)

    def refute_eq(self, label, ds, tol):
        import z3
        self.obl += 1
        self.labels.add(label)
        zs = []
        for d in ds:
            z = z3.simplify(d.zr(), som=True)
            if z3.is_rational_value(z):
                if abs(z.as_fraction()) <= tol:
                    continue
                z = d.zr()
            zs.append(z)
        if not zs:
            self.disch += 1
            return
        t = z3.RealVal(str(tol))
        approx = [z3.Or(*[z3.Or(z > t, z < -t) for z in zs])]
        exact = [z3.Or(*[z != 0 for z in zs])]
        r, m = self._solve(approx, min(6000, self.check_ms))
        if r == 'unknown':
            r2, _ = self._solve(exact, min(8000, self.check_ms))
            if r2 == 'unsat':
                r = 'unsat'
            else:
                r, m = self._solve(approx, self.check_ms)
                if r == 'unknown':
                    # element by element
                    r = 'unsat'
                    for z in zs:
                        q = [z3.Or(z > t, z < -t)]
                        ri, m = self._solve(q, self.check_ms // 4)
                        if ri == 'sat':
                            r, approx = 'sat', q
                            break
                        if ri == 'unknown':
                            r = 'unknown'
                            if len(zs) > 12:
                                break
        if r == 'unsat':
            self.disch += 1
            return
        if r == 'unknown':
            self.unk += 1
            self.path_unknown.append(label)
            return
        self._found(label, approx, m, 'values differ by more than %g' % tol)

    # ---- models ---------------------------------------------------------
    def _values(self, m):
        import z3
        from engine.sym import ENG
        out = {}
        for name, kind, ts in ENG.inputs:
            vs = []
            for t in ts:
                v = m.eval(t, model_completion=True)
                if kind == 'b':
                    vs.append('1' if z3.is_true(v) else '0')
                elif z3.is_algebraic_value(v):
                    vs.append(str(v.approx(20).as_fraction()))
                elif kind == 'i':
                    vs.append(str(v.as_long()))
                else:
                    vs.append(str(v.as_fraction()))
            out[name] = vs
        return out

    def _fix(self, vals):
        import z3
        from engine.sym import ENG
        cs = []
        for name, kind, ts in ENG.inputs:
            if name not in vals:
                continue
            for t, v in zip(ts, vals[name]):
                if kind == 'b':
                    cs.append(t if v == '1' else z3.Not(t))
                elif kind == 'i':
                    cs.append(t == int(Fraction(v)))
                else:
                    cs.append(t == z3.RealVal(v))
        return cs

    def _nice(self, vals, den):
        out = {}
        from engine.sym import ENG
        kinds = {n: k for n, k, _ in ENG.inputs}
        for n in vals:
            if kinds[n] == 'r':
                out[n] = [str(Fraction(round(Fraction(v) * den), den))
                          for v in vals[n]]
            else:
                out[n] = list(vals[n])
        return out

    def _found(self, label, neg, m, msg):
        """Pick well-conditioned models of the counterexample; raise."""
        from engine.sym import ENG
        cands = [self._values(m)]
        for den in (8, 64, 4096):
            v = self._nice(cands[0], den)
            if v != cands[0] and self._solve(
                    neg + self._fix(v), 3000)[0] == 'sat':
                cands.insert(0, v)
                break
        # a few more, away from the degenerate ones
        for _ in range(3):
            v = self._random()
            keys = list(v)
            self.rng.shuffle(keys)
            keep = {k: v[k] for k in keys}
            while keep:
                r, mm = self._solve(neg + self._fix(keep), 2000)
                if r == 'sat':
                    cands.append(self._values(mm))
                    break
                for k in list(keep)[:max(1, len(keep) // 2)]:
                    del keep[k]
        raise Found(label, msg, cands, ENG.abstract)

    def generic(self, n):
        """n inputs drawn from the declared ranges."""
        from engine.sym import ENG
        out = []
        for _ in range(n):
            v = {}
            for name, kind, ts in ENG.inputs:
                lo, hi = ENG.ranges[name]
                if kind == 'r':
                    v[name] = [str(lo + (hi - lo) * Fraction(
                        self.rng.randint(0, 4096), 4096)) for _ in ts]
                else:
                    v[name] = [str(self.rng.randint(int(lo), int(hi)))
                               for _ in ts]
            out.append(v)
        return out

    def _random(self):
        import z3
        from engine.sym import ENG
        vals = {}
        for name, kind, ts in ENG.inputs:
            if kind == 'b':
                vals[name] = [str(self.rng.randint(0, 1)) for _ in ts]
            elif kind == 'i':
                vals[name] = None
            else:
                lo, hi = ENG.ranges[name]
                den = 16
                while hi > lo and (hi - lo) * den < 32 and den < 2 ** 20:
                    den *= 4
                lo, hi = math.ceil(lo * den), math.floor(hi * den)
                vals[name] = [str(Fraction(self.rng.randint(lo, hi), den))
                              if hi > lo else str(Fraction(lo, den))
                              for _ in ts]
        return {k: v for k, v in vals.items() if v is not None}

    def witness(self):
        """A model of the current path, as random as the path allows."""
        base = self._random()
        for frac in (1.0, 0.6, 0.3):
            v = {k: x for k, x in base.items()
                 if self.rng.random() <= frac}
            if not v:
                continue
            r, m = self._solve(self._fix(v), 2000)
            if r == 'sat':
                return self._values(m), m
        r, m = self._solve([], 10000)
        if r == 'sat':
            v = self._values(m)
            n = self._nice(v, 64)
            if n != v:
                r, m2 = self._solve(self._fix(n), 2000)
                if r == 'sat':
                    return n, m2
            return v, m
        return None, None

    # ---- main loop -------------------------------------------------------
    def run(self, res):
        from engine import harness, loader, sym, vfs, shims, snp
        import z3
        ENG = sym.ENG
        ENG.stats = sym.Stats()
        ENG.branch_timeout = 8000
        case = self.case
        budget = case.budget or (120 if self.tier == 'quick' else 900)
        t_end = min(self.deadline, time.time() + budget)
        self.deadline = ENG.deadline = t_end
        stack = [[]]
        paths = infeasible = limits = 0
        wit = wit_ok = wit_skip = 0
        compared = 0
        incon = []
        ld = loader.SymLoader(vfs.modules())
        ld.opener = open
        names = set()
        while stack:
            if time.time() > t_end:
                incon.append('time budget: %d path prefixes unexplored' %
                             len(stack))
                break
            prefix = stack.pop()
            ENG.reset_path(prefix)
            sym.TOKENS.tab.clear()
            vfs.STORE.tab.clear()
            snp.TRACK = None
            shims.WARN.error = False
            shims.WARN.warned = []
            ld.fresh()
            ctx = harness.SymCtx(case.params, self, ld)
            self.path_unknown = []
            found = None
            done = False
            d = tempfile.mkdtemp(dir=self.scratch)
            old = self.scratch
            self.scratch = d
            cwd = os.getcwd()
            os.chdir(d)
            try:
                case.fn(ctx, **case.params)
                done = True
            except sym.PathAbort:
                infeasible += 1
            except sym.EngineLimit as e:
                incon.append('not encoded: %s' % e)
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                if len(incon) > 20:
                    break
                if limits < 2 and 'time budget' not in str(e):
                    # the path leaves the modelled fragment: models of the
                    # path condition so far still go to the real code
                    limits += 1
                    v, _ = self.witness()
                    for v in ([v] if v else []) + self.generic(2):
                        out = self.rep.run(self.prop.id, case.name, v)
                        if out['status'] in ('fail', 'error', 'crash'):
                            res['violations'].append({
                                'case': case.name, 'label': 'model of a '
                                'path outside the encoding',
                                'message': str(e), 'values': v,
                                'replay': {k: out.get(k) for k in (
                                    'status', 'failures', 'error',
                                    'trace')}})
                            stack.clear()
                            ENG.pending.clear()
                            break
            except Found as f:
                found = f
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                v, _ = self.witness()
                if v is None:
                    infeasible += 1
                else:
                    found = Found('no exception', "%s: %s" % (
                        type(e).__name__, e), [v], 'exc')
            finally:
                os.chdir(cwd)
                self.scratch = old
                shutil.rmtree(d, ignore_errors=True)
                stack.extend(ENG.pending)
            if found is not None:
                paths += 1
                hit = None
                cand = list(found.values)
                if found.abstract is True:
                    # the model fixes values of abstracted routines, which the
                    # real ones need not take: also try generic inputs
                    cand += self.generic(10)
                for v in cand:
                    out = self.rep.run(self.prop.id, case.name, v)
                    if out['status'] in ('fail', 'error', 'crash'):
                        hit = (v, out)
                        if not only_known(self.known, case.name, out):
                            break
                if hit:
                    res['violations'].append({
                        'case': case.name, 'label': found.label,
                        'message': found.msg, 'values': hit[0],
                        'replay': {k: hit[1].get(k) for k in (
                            'status', 'failures', 'error', 'trace')}})
                    break
                kind = ('abstraction' if found.abstract else 'encoding')
                incon.append('counterexample of "%s" (%s) not reproduced '
                             '(%s)' % (found.label, found.msg, kind))
                if kind == 'encoding':
                    res['unreproduced'].append([case.name, found.label,
                                                found.msg, found.values[0]])
                if len(incon) > 8:
                    break
                continue
            if not done:
                continue
            paths += 1
            for lb in self.path_unknown:
                incon.append('solver gave up on "%s"' % lb)
            if wit < case.witnesses and time.time() < t_end:
                v, m = self.witness()
                if v is not None:
                    wit += 1
                    out = self.rep.run(self.prop.id, case.name, v)
                    st = out['status']
                    if st in ('fail', 'error', 'crash'):
                        res['violations'].append({
                            'case': case.name, 'label': 'path witness',
                            'message': 'the real code breaks the property '
                            'on the model of an explored path',
                            'values': v,
                            'replay': {k: out.get(k) for k in (
                                'status', 'failures', 'error', 'trace')}})
                        break
                    if st == 'ok':
                        wit_ok += 1
                        if len(res['samples']) < 2:
                            res['samples'].append(
                                {'case': case.name,
                                 'inputs': {k: [str(float(Fraction(x)))
                                                for x in v[k][:8]]
                                            for k in list(v)[:4]}})
                        mm = self._compare(ctx, m, out)
                        if mm is None:
                            pass
                        elif mm is True:
                            compared += 1
                        elif not ENG.abstract:
                            res['mismatch'].append([case.name, mm])
                    else:
                        wit_skip += 1
        if not paths and not incon and not res['violations']:
            incon.append('no feasible path')
        st = ENG.stats
        res.update(paths=paths, infeasible=infeasible, obligations=self.obl,
                   trivial=self.triv, discharged=self.disch,
                   unknown=self.unk, queries=st.queries,
                   solver_s=st.solver_s, branches=st.branches,
                   witnesses=wit, witnesses_ok=wit_ok,
                   witnesses_skipped=wit_skip, compared=compared,
                   inconclusive=incon, labels=sorted(self.labels)[:40],
                   sources=sorted(ld.sources.values()),
                   opaque=sorted(shims.OPAQUE_USED))

    def _compare(self, ctx, m, out):
        """Symbolic outputs at the model vs outputs of the real code."""
        import z3
        real = out['records']
        n = 0
        if m is None or len(real) != len(ctx.records):
            return None
        for (lb, fa), (lb2, vals) in zip(ctx.records, real):
            if lb != lb2 or len(fa) != len(vals):
                return None
            for x, y in zip(fa, vals):
                from engine import sym
                if isinstance(x, sym.SC):
                    x = x.re
                x = sym.lift(x)
                if x is None:
                    continue
                if x.const:
                    if isinstance(x.c, float):
                        continue
                    xv = float(x.c)
                else:
                    e = m.eval(x.zr(), model_completion=True)
                    if not z3.is_rational_value(e):
                        continue
                    xv = float(e.as_fraction())
                if y != y or abs(xv - y) > 2e-3 + 1e-4 * max(
                        abs(xv), abs(y)):
                    return "%s: encoded %r, real %r" % (lb, xv, y)
                n += 1
        return True if n else None


def _work(args):
    pid, name, tier, seed, scratch, deadline = args
    from engine import registry
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    res = {'case': name, 'violations': [], 'unreproduced': [],
           'mismatch': [], 'samples': [], 'error': None}
    t = time.time()
    global _REP
    try:
        if '_REP' not in globals() or _REP is None:
            _REP = Replayer(scratch)
        prop = registry.load(pid)
        case = registry.find(pid, name)
        if time.time() > deadline:
            res['error'] = 'budget'
            res['inconclusive'] = ['global time budget']
        else:
            CaseRunner(prop, case, tier, seed, scratch, deadline, _REP,
                       2).run(res)
    except BaseException as e:
        res['error'] = "%s: %s\n%s" % (type(e).__name__, e,
                                       traceback.format_exc()[-2500:])
    res['wall'] = time.time() - t
    return res


def _init(scratch):
    global _REP
    _REP = None
    import resource
    from engine.replay import drop_privileges
    drop_privileges()
    sys.setrecursionlimit(20000)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('-j', type=int, default=int(
        os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true',
                    help='do not stop at the first violation')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = 780 if a.tier == 'quick' else 6 * 3600
    total = int(os.environ.get('VERIF_BUDGET', total))
    deadline = t0 + total - 60
    from engine import registry
    prop = registry.load(a.prop)
    cases = prop.cases_for(a.tier)
    if a.case:
        cases = [c for c in prop.cases if re.search(a.case, c.name)]
    known = load_known(prop.id)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop.id)
    os.chmod(scratch, 0o777)
    jobs = [(prop.id, c.name, a.tier, seed, scratch, deadline)
            for c in cases]
    results = []
    vio, seen_known = [], []
    pool = mp.get_context('fork').Pool(min(a.j, max(1, len(jobs))),
                                       initializer=_init,
                                       initargs=(scratch,))
    try:
        for r in pool.imap_unordered(_work, jobs, chunksize=1):
            results.append(r)
            if a.v:
                print("%-60s %6.1fs paths=%s obl=%s/%s wit=%s/%s cmp=%s %s"
                      % (r['case'][:60], r['wall'], r.get('paths'),
                         r.get('discharged'), r.get('obligations'),
                         r.get('witnesses_ok'), r.get('witnesses'),
                         r.get('compared'),
                         (r['error'] or '')[-600:]), flush=True)
                for x in r.get('inconclusive') or []:
                    print("     inconclusive:", x[:300])
                for x in r['mismatch'] + r['unreproduced']:
                    print("     mismatch:", str(x)[:300])
                for x in r['violations']:
                    print("     VIO:", json.dumps(x)[:1500])
            stop = False
            for v in r['violations']:
                k = match_known(known, v)
                if k:
                    seen_known.append((k, v))
                else:
                    vio.append(v)
                    stop = True
            if stop and not a.all:
                break
        pool.terminate()
    finally:
        pool.terminate()
        pool.join()
        subprocess.run(['pkill', '-f', 'engine.replay ' + scratch],
                       check=False)
        shutil.rmtree(scratch, ignore_errors=True)
    finish(prop, a, seed, cases, results, vio, known, seen_known, t0)


def load_known(pid):
    fn = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def match_known(known, v):
    for k in known:
        if only_known([k], v['case'], v['replay']):
            return k
    return None


def only_known(known, case, out):
    """Every failure of the replay is one of the listed findings."""
    fs = out.get('failures') or []
    return out.get('status') == 'fail' and bool(fs) and all(any(
        k['case'] == case and re.search(k['match'], f) for k in known)
        for f in fs)


def finish(prop, a, seed, cases, results, vio, known, seen_known, t0):
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    for k, v in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, k['what']))
    tot = {}
    for key in ('paths', 'infeasible', 'obligations', 'trivial',
                'discharged', 'unknown', 'queries', 'solver_s', 'branches',
                'witnesses', 'witnesses_ok', 'compared'):
        tot[key] = sum(r.get(key) or 0 for r in results)
    incon = {r['case']: (r.get('inconclusive') or []) + (
        [r['error'][:200]] if r.get('error') else []) for r in results
        if r.get('inconclusive') or r.get('error')}
    unrep = [x for r in results for x in r['unreproduced']]
    mism = [x for r in results for x in r['mismatch']]
    samples = [s for r in results for s in r['samples']][:6]
    srcs = sorted({s for r in results for s in r.get('sources') or []})
    decided = [r['case'] for r in results if not r.get('error')
               and (r.get('obligations') or 0) > 0
               and not r.get('inconclusive')]
    opq = sorted({s for r in results for s in r.get('opaque') or []})
    cov = {
        'explanation': 'Bounded symbolic execution of the repository sources '
        'with z3: on every feasible path within the bounds each obligation '
        'was shown unsatisfiable when negated, or the run says otherwise '
        'below.',
        'functions_encoded': prop.functions,
        'source_files_executed_symbolically': [
            os.path.relpath(s, REPO) for s in srcs],
        'bounds': prop.bounds,
        'outside_the_claim': prop.outside,
        'cases_total': len(cases), 'cases_run': len(results),
        'cases_fully_decided': len(decided),
        'paths_explored': tot['paths'],
        'branch_decisions': tot['branches'],
        'obligations': tot['obligations'],
        'obligations_discharged': tot['discharged'],
        'obligations_constant_after_symbolic_execution': tot['trivial'],
        'obligations_unknown': tot['unknown'],
        'solver_queries': tot['queries'],
        'solver_seconds': round(tot['solver_s'], 2),
        'reachability_witnesses_replayed_on_real_code': tot['witnesses'],
        'witnesses_confirmed': tot['witnesses_ok'],
        'witnesses_with_encoded_outputs_matching_real_outputs':
            tot['compared'],
        'encoding_mismatches': mism[:5],
        'unreproduced_counterexamples': [str(u)[:600] for u in unrep[:5]],
        'uninterpreted_library_routines': opq,
        'inconclusive': {k: v[:3] for k, v in list(incon.items())[:30]},
        'known_findings_seen': [k['what'] for k, _ in seen_known],
        'samples': samples,
    }
    ev = {'property': prop.id, 'tier': a.tier if a.tier in (
        'quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
        'coverage': cov, 'assumptions': prop.assumptions + [
            'exact real arithmetic stands for IEEE floating point in the '
            'encoding; equalities are up to a stated tolerance; every '
            'counterexample is replayed in floating point'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(vio)}
    if vio:
        v = vio[0]
        rp = os.path.join(ev_dir, '%s.replay.json' % prop.id)
        with open(rp, 'w') as f:
            json.dump({'prop': prop.id, 'case': v['case'],
                       'values': v['values'], 'label': v['label'],
                       'message': v['message'], 'observed': v['replay'],
                       'how': '/verif/replay.sh ' + rp}, f, indent=1)
        ev['coverage']['violation'] = {
            'case': v['case'], 'label': v['label'],
            'message': v['message'], 'observed': v['replay']}
    with open(os.path.join(ev_dir, prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d paths, %d/%d obligations discharged, %d queries,"
          " %.1f s solver, %d/%d witnesses, %.1f s wall" % (
              prop.id, len(results), tot['paths'], tot['discharged'],
              tot['obligations'], tot['queries'], tot['solver_s'],
              tot['witnesses_ok'], tot['witnesses'], time.time() - t0))
    for k, v in list(incon.items())[:10]:
        print("INCONCLUSIVE %s: %s" % (k, '; '.join(v)[:300]))
    for u in unrep[:3]:
        print("UNREPRODUCED %s" % str(u)[:400])
    for u in mism[:3]:
        print("ENCODING-MISMATCH %s" % str(u)[:400])
    if vio:
        v = vio[0]
        print("  case %s: %s (%s): %s" % (
            v['case'], v['label'], v['message'],
            json.dumps(v['replay'])[:700]))
        print("VIOLATION property=%s replay=%s" % (prop.id, rp))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    if unrep or not decided:
        os._exit(2)
    os._exit(0)


if __name__ == '__main__':
    main()
