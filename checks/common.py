"""Shared runner for the checks: builds the encoding from /repo, runs symbolic jobs in parallel, decides obligations with
z3, replays candidate counterexamples on a real build, honours the known-findings file and writes the evidence file."""
import fnmatch
import json
import os
import pickle
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)
import z3
from engine import build, llir, capi
from engine import ex as X
from engine.interp import PathDead, Unsupported, Budget

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('PN_JOBS', '8'))
T0 = time.time()


class Rec(object):
    """what one batch of jobs established"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.queries = 0
        self.qtime = 0.0
        self.cands = []
        self.unsupported = {}
        self.unknown = {}
        self.errors = {}
        self.funcs = set()
        self.blocks = 0
        self.forks = 0
        self.cases = 0
        self.witness = {}
        self.samples = []
        self.notes = {}
        self.done = []
        self._cache = {}

    def oblige(self, E, bad, cand, timeout=10000, ctxpc=True, norm=None):
        """the property needs `bad` to be unsatisfiable on this path; cand: dict describing how to replay"""
        self.obligations += 1
        if type(bad) is int and bad == 0:
            self.trivial += 1
            self.discharged += 1
            return True
        if norm is not None and type(bad) is not int and not E.pcs:
            k = X.rename(bad, norm)
            r = self._cache.get(k)
            if r:
                self.discharged += 1
                return True
        else:
            k = None
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', timeout)
        if ctxpc:
            for c in E.pcs:
                s.add(X.zb(c))
        s.add(X.zb(bad))
        t = time.time()
        r = str(s.check())
        self.queries += 1
        self.qtime += time.time() - t
        if r == 'unsat':
            self.discharged += 1
            if k is not None:
                self._cache[k] = True
            return True
        if r == 'sat':
            m = s.model()
            env = {}
            for d in m.decls():
                if d.arity() == 0:
                    env[d.name()] = E._mv(m, d)
            self.cand(dict(cand, env=env))
            return False
        self.unknown[cand.get('key', '?')] = self.unknown.get(cand.get('key', '?'), 0) + 1
        return None

    def cand(self, c):
        self.cands.append(c)

    def reach(self, name, ok=True):
        """vacuity witness: the code of interest really was executed / the state is reachable"""
        self.witness[name] = self.witness.get(name, False) or bool(ok)


class Ctx(object):
    pass


class Check(object):
    """One property.  Subclass or fill in: pid, jobs(ctx) -> list of (key, fn, args); replay(ctx, cand) -> dict(script=..)"""
    pid = None
    level = 'model_checking'
    ncpu = 4
    batch = 8
    batch_timeout = 240
    assumptions = []
    bounds = ''
    needs_ir = True
    mem_limit = 6 << 30
    total_timeout = 700
    max_replays = 40
    max_viol = 5
    replay_limit = 850
    tries = 4

    def jobs(self, ctx):
        raise NotImplementedError

    def setup(self, ctx):
        pass

    def group(self, cand):
        """identity of a violation for de-duplication and known findings"""
        return cand.get('key', '?')

    def replay(self, ctx, cand):
        """-> (path, confirmed True/False, text)"""
        raise NotImplementedError

    def explain(self, ctx, tot):
        return {}

    def validate(self, ctx):
        """translator validation: number of concrete runs through both the encoding and the real build"""
        return 0, []


def run_jobs(check, ctx, jobs):
    """fork-based pool; returns merged Rec list"""
    order = list(range(len(jobs)))
    batches = []
    b = check.batch
    # largest weights first when given
    wts = [j[3] if len(j) > 3 else 1 for j in jobs]
    order.sort(key=lambda i: -wts[i])
    cur, w = [], 0
    tot = sum(wts)
    cap = max(tot / (NPROC * 6.0), max(wts) if wts else 1) if b is None else None
    for i in order:
        cur.append(i)
        w += wts[i]
        if (b is None and w >= cap) or (b is not None and len(cur) >= b):
            batches.append(cur)
            cur, w = [], 0
    if cur:
        batches.append(cur)
    d = build.scratch('pnj_')
    running = {}
    results = []
    nb = 0
    limit = T0 + check.total_timeout

    def start(k, idx):
        pid = os.fork()
        if pid:
            running[pid] = (k, idx, time.time())
            return
        code = 0
        try:
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (check.mem_limit, check.mem_limit))
            rec = Rec(ctx)
            path = '%s/%d.pkl' % (d, k)
            E = ctx.E if hasattr(ctx, 'E') else None
            for i in idx:
                key, fn, args = jobs[i][:3]
                if E is not None:
                    E.pcs[:] = []
                    E.stack[:] = []
                    E.problems[:] = []
                    q0, t0, b0, f0 = E.queries, E.qtime, E.nblocks, E.forks
                    E.deadline = time.time() + check.batch_timeout
                t1 = time.time()
                try:
                    fn(ctx, rec, key, *args)
                    rec.cases += 1
                except PathDead:
                    rec.cases += 1
                except (Unsupported, Budget) as e:
                    rec.unsupported[key] = '%s: %s' % (type(e).__name__, e)
                except MemoryError:
                    rec.unsupported[key] = 'out of memory'
                except Exception as e:
                    rec.errors[key] = traceback.format_exc()[-1500:]
                rec.done.append((key, round(time.time() - t1, 3)))
                if E is not None:
                    rec.queries += E.queries - q0
                    rec.qtime += E.qtime - t0
                    rec.blocks += E.nblocks - b0
                    rec.forks += E.forks - f0
                    rec.funcs |= E.funcs_used
                if i == idx[-1] or time.time() - running_start > 5:
                    dump(rec, path)
        except BaseException as e:
            sys.stderr.write(traceback.format_exc())
            code = 3
        finally:
            os._exit(code)
    running_start = time.time()

    def dump(rec, path):
        c = rec.ctx
        cache = rec._cache
        rec.ctx = None
        rec._cache = {}
        with open(path + '.t', 'wb') as f:
            pickle.dump(rec, f)
        os.rename(path + '.t', path)
        rec.ctx = c
        rec._cache = cache
    k = 0
    lost = {}
    sys.stdout.flush()
    while k < len(batches) or running:
        while k < len(batches) and len(running) < NPROC and time.time() < limit:
            running_start = time.time()
            start(k, batches[k])
            k += 1
        if time.time() >= limit:
            for kk in range(k, len(batches)):
                for i in batches[kk]:
                    lost[jobs[i][0]] = 'not started: time budget of the check used up'
            k = len(batches)
        if not running:
            break
        try:
            pid, stt = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            time.sleep(0.02)
            now = time.time()
            for p, (kk, idx, ts) in list(running.items()):
                if now - ts > check.batch_timeout + 30 or now > limit + 30:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
            continue
        if pid in running:
            kk, idx, ts = running.pop(pid)
            path = '%s/%d.pkl' % (d, kk)
            got = set()
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    rec = pickle.load(f)
                got = set(x for x, _ in rec.done)
                results.append(rec)
            for i in idx:
                if jobs[i][0] not in got:
                    lost[jobs[i][0]] = 'worker stopped (status %d)' % stt
    return results, lost


def merge(results):
    tot = dict(obligations=0, discharged=0, trivial=0, queries=0, qtime=0.0, blocks=0, forks=0, cases=0)
    cands, uns, unk, err, funcs, wit, samples, notes, times = [], {}, {}, {}, set(), {}, [], {}, []
    for r in results:
        for k in tot:
            tot[k] += getattr(r, k)
        cands += r.cands
        uns.update(r.unsupported)
        for k, v in r.unknown.items():
            unk[k] = unk.get(k, 0) + v
        err.update(r.errors)
        funcs |= r.funcs
        for k, v in r.witness.items():
            wit[k] = wit.get(k, False) or v
        samples += r.samples
        for k, v in r.notes.items():
            notes[k] = v
        times += r.done
    return tot, cands, uns, unk, err, funcs, wit, samples, notes, times


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def outdir(pid):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    return d


def write_evidence(pid, d):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, default=str)
    os.rename(p + '.tmp', p)


def demangle(names):
    try:
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        return out[:len(names)]
    except Exception:
        return list(names)


def run(check):
    pid = check.pid
    sys.stdout.reconfigure(line_buffering=True)
    verbose = os.environ.get('PN_V')
    ctx = Ctx()
    ctx.tier = TIER
    if check.needs_ir:
        ctx.mod = llir.Module(check.build() if hasattr(check, 'build') else build.build_ir())
        ctx.E, ctx.C, ctx.st = capi.setup(ctx.mod, ncpu=check.ncpu)
        import specs
        ctx.C.oldloop_handler = specs.oldloop()
    check.setup(ctx)
    tb = time.time() - T0
    jobs = check.jobs(ctx)
    only = os.environ.get('PN_ONLY')
    if only:
        jobs = [j for j in jobs if fnmatch.fnmatch(j[0], only)]
    results, lost = run_jobs(check, ctx, jobs)
    tot, cands, uns, unk, err, funcs, wit, samples, notes, times = merge(results)
    for k, v in lost.items():
        uns[k] = v
    # candidates -> groups
    groups = {}
    for c in cands:
        groups.setdefault(check.group(c), []).append(c)
    viol, unconf, known = [], [], []
    kf = [f for f in known_findings() if f['property'] == pid]
    nrep = 0
    t_rep = time.time()
    for g in sorted(groups):
        f = None
        for x in kf:
            if any(fnmatch.fnmatchcase(g, p) for p in ([x['match']] if isinstance(x['match'], str) else x['match'])):
                f = x
                break
        if f is not None:
            if f not in known:
                known.append(f)
            continue
        if nrep >= check.max_replays or time.time() - T0 > check.replay_limit or len(viol) >= check.max_viol:
            unconf.append((g, 'not replayed (limit)'))
            continue
        ok = False
        txt = ''
        for c in groups[g][:check.tries]:
            nrep += 1
            try:
                path, ok, txt = check.replay(ctx, c)
            except Exception as e:
                txt = 'replay failed: ' + traceback.format_exc()[-800:]
                ok = False
            if ok:
                viol.append((g, path, txt))
                break
        if not ok:
            unconf.append((g, txt))
    try:
        nval, vnotes = check.validate(ctx)
    except Exception:
        nval, vnotes = 0, ['validation error: ' + traceback.format_exc()[-800:]]
        err['validation'] = vnotes[0]
    fl = sorted(f for f in funcs if not f.startswith('_GLOBAL'))
    cov = dict(states=tot['blocks'], transitions=tot['blocks'] + tot['forks'], traces_validated_against_impl=nval,
               samples=(samples or [k for k, _ in times[:3]])[:6],
               symbolic_jobs=len(jobs), jobs_completed=tot['cases'],
               obligations=tot['obligations'], discharged=tot['discharged'], discharged_by_identical_expressions=tot['trivial'],
               solver_queries=tot['queries'], solver_seconds=round(tot['qtime'], 2),
               functions_encoded=len(fl), functions=demangle(fl)[:400],
               bounds=check.bounds if isinstance(check.bounds, str) else check.bounds(ctx),
               unknown=unk, not_encoded=dict(list(uns.items())[:60]), not_encoded_count=len(uns),
               reachability_witnesses=wit, unconfirmed_candidates=[dict(group=g, why=t[:300]) for g, t in unconf[:40]],
               known_findings=[f['id'] for f in known], notes=notes, validation_notes=vnotes[:20],
               build_seconds=round(tb, 2), slowest_jobs=sorted(times, key=lambda t: -t[1])[:5])
    cov['internal_errors'] = {k: v[-300:] for k, v in list(err.items())[:10]}
    cov.update(check.explain(ctx, tot) or {})
    ev = dict(property=pid, tier=TIER, seed=SEED, level=check.level, coverage=cov, assumptions=check.assumptions,
              violations=len(viol), wall_s=round(time.time() - T0, 2))
    write_evidence(pid, ev)
    if verbose or err:
        for k, v in list(err.items())[:10]:
            print('ERROR in', k, '\n', v)
    if verbose:
        print(json.dumps({k: v for k, v in cov.items() if k not in ('functions',)}, indent=1, default=str)[:6000])
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for f in kf:
        if f not in known:
            print('note: listed finding %s was not observed on this run' % f['id'])
    for g, t in unconf[:15]:
        print('note: unconfirmed candidate %s: %s' % (g, t[:200].replace('\n', ' | ')))
    print('%s tier=%s jobs=%d/%d obligations=%d discharged=%d queries=%d solver=%.1fs not-encoded=%d unknown=%d validated=%d wall=%.1fs' % (
        pid, TIER, tot['cases'], len(jobs), tot['obligations'], tot['discharged'], tot['queries'], tot['qtime'], len(uns), sum(unk.values()),
        nval, time.time() - T0))
    for g, path, txt in viol:
        print('violated: %s: %s' % (g, txt[:400].replace('\n', ' | ')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    bad_wit = [k for k, v in wit.items() if not v]
    if viol:
        return 1
    if tot['obligations'] == 0 or tot['cases'] == 0:
        print('CHECK ERROR: nothing decided (unreachable witness %s, internal errors %d)' % (bad_wit, len(err)))
        return 2
    return 0
