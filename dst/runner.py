"""Campaign runner: seeded runs in forked workers, minimisation, replay, evidence."""
import os, sys, json, time, random, signal, hashlib, traceback, subprocess, tempfile, gc, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
EVIDENCE = os.environ.get("DST_EVIDENCE") or os.path.join(VERIF, "evidence")

_clock = time.monotonic      # bound before the seams are installed: harness time only


class InvalidPlan(Exception):
    """The plan (usually a shrunk one) is not a legal input."""


class Result(object):
    """Outcome of one simulated execution."""
    def __init__(self):
        self.violations = []       # dict(kind=..., detail=...)
        self.decisions = {}
        self.counters = {}         # faults fired, probes
        self.sim_time = 0.0
        self.steps = 0
        self.key = None            # identifies the interleaving / state history reached
        self.nontrivial = True
        self.digest = ""           # of the complete event log (determinism check)
        self.trace = []            # human readable, kept for replay files

    def bad(self, kind, detail=""):
        if len(self.violations) < 20:
            self.violations.append({"kind": kind, "detail": str(detail)[:1500]})

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def take(self, sim):
        """Take over what a Sim measured."""
        for k, v in sim.decisions.items():
            self.decisions[str(k)] = v
        for k, v in sim.counters.items():
            self.count(k, v)
        self.sim_time += sim.elapsed
        self.steps += sim.steps
        self.count("context_switches", sim.switches)


def run_seed(verif_seed, prop, i):
    return "%s/%s/%d" % (verif_seed, prop, i)


def np_seed(text):
    return int.from_bytes(hashlib.sha256(str(text).encode()).digest()[:4], "big")


def _in_repo(tb):
    """Does the traceback pass through the code under test?"""
    pre = os.path.join(os.path.realpath(REPO), "cddm") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pre):
            return True
        tb = tb.tb_next
    return False


def _malformed(e):
    """Did an oracle trip over the form of a result (missing items, wrong types, wrong
    shapes)?  A missing name of a module or the harness' own complaint is not that."""
    if type(e) not in (TypeError, ValueError, IndexError, KeyError, AttributeError):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    own = os.path.join(os.path.dirname(os.path.realpath(__file__)), "")
    last = os.path.realpath(tb.tb_frame.f_code.co_filename)
    if last.startswith(own) and os.path.basename(last) in ("sched.py", "seams.py", "world.py", "warm.py", "pool.py", "disk.py", "runner.py"):
        return False
    return not (isinstance(e, AttributeError) and str(e).startswith("module "))


def execute(check, plan, seed, decisions=None):
    """One execution; exceptions of the code under test that the check did not
    expect become violations, and so do results of a form the oracle cannot read;
    failures of the harness itself propagate."""
    gc.disable()
    try:
        return check.execute(plan, seed, decisions)
    except InvalidPlan:
        raise
    except Exception as e:
        if _in_repo(e.__traceback__):
            r = Result()
            r.bad("unexpected-exception", "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:])))
            r.digest = "exc"
            r.key = "exc"
            return r
        if _malformed(e):
            r = Result()
            r.bad("malformed-result", "the oracle could not read what the code returned: %s: %s\n%s"
                  % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:])))
            r.digest = "exc"
            r.key = "exc"
            return r
        raise
    finally:
        gc.enable()
        gc.collect()


# ------------------------------------------------------------------ workers

def _worker(check, prop, verif_seed, indices, path, deadline, dup_every):
    gc.collect()
    gc.freeze()
    out = open(path, "a", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if hasattr(check, "worker_init"):
        check.worker_init()
    for i in indices:
        if _clock() > deadline:
            out.write(json.dumps({"deadline": i}) + "\n")
            break
        seed = run_seed(verif_seed, prop, i)
        out.write(json.dumps({"start": i}) + "\n")
        t0 = _clock()
        try:
            plan = json.loads(json.dumps(check.gen(random.Random("plan-" + seed))))
            r = execute(check, plan, seed)
            rec = dict(i=i, v=r.violations, c=r.counters, st=r.sim_time, n=r.steps, k=r.key,
                       nt=bool(r.nontrivial), d=r.digest, w=_clock() - t0)
            if i % dup_every == 0:
                r2 = execute(check, plan, seed)
                rec["dup"] = [r2.digest == r.digest, len(r2.violations) == len(r.violations)]
            if r.violations or i < 3:
                rec["plan"] = plan
                rec["dec"] = r.decisions
                rec["tr"] = r.trace[:60]
        except BaseException as e:
            rec = dict(i=i, err="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
        out.write(json.dumps(rec) + "\n")
    out.write(json.dumps({"end": 1}) + "\n")
    out.close()


def _fork(fn):
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fn()
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    return pid


def campaign(check, prop, verif_seed, n_runs, workers, wall_budget, hang_s, dup_every=25, first=0, stop_on=6):
    """Run seeds first..first+n_runs-1; returns records sorted by index."""
    tmp = tempfile.mkdtemp(prefix="dst-camp-", dir=os.environ.get("DST_SCRATCH"))
    deadline = _clock() + wall_budget
    recs, errors, hangs = {}, [], []
    state = []
    truncated = False
    try:
        jobs = [[i for i in range(first, first + n_runs) if i % workers == w] for w in range(workers)]
        def launch(w, idx):
            path = os.path.join(tmp, "w%d-%d" % (w, len(os.listdir(tmp))))
            open(path, "w").close()
            pid = _fork(lambda: _worker(check, prop, verif_seed, idx, path, deadline, dup_every))
            return dict(w=w, idx=idx, path=path, pid=pid, pos=0, last=_clock(), cur=None, buf="", fin=False)
        state = [launch(w, j) for w, j in enumerate(jobs) if j]
        nviol = 0
        while state:
            time.sleep(0.05)
            for s in list(state):
                with open(s["path"]) as f:
                    f.seek(s["pos"])
                    data = f.read()
                    s["pos"] += len(data)
                if data:
                    s["last"] = _clock()
                    s["buf"] += data
                    lines = s["buf"].split("\n")
                    s["buf"] = lines.pop()
                    for ln in lines:
                        m = json.loads(ln)
                        if "start" in m:
                            s["cur"] = m["start"]
                        elif "deadline" in m:
                            truncated = True
                        elif "end" in m:
                            s["fin"] = True
                        elif "err" in m:
                            errors.append(m)
                            s["cur"] = None
                        else:
                            recs[m["i"]] = m
                            s["cur"] = None
                            if m["v"]:
                                nviol += 1
                pid, status = os.waitpid(s["pid"], os.WNOHANG)
                dead = pid != 0
                hung = not dead and _clock() - s["last"] > hang_s
                if hung:
                    os.kill(s["pid"], signal.SIGKILL)
                    os.waitpid(s["pid"], 0)
                    dead, status = True, "hang"
                if dead:
                    with open(s["path"]) as f:
                        f.seek(s["pos"])
                        rest = f.read()
                    if rest:           # read what came after the last poll first
                        if hung or s.get("again", 0) > 50:
                            pass
                        else:
                            s["again"] = s.get("again", 0) + 1
                            s["pid_dead"] = True
                    _drain(s, rest, recs, errors)
                    state.remove(s)
                    if not s["fin"]:
                        cur = s["cur"]
                        if cur is None:
                            errors.append(dict(i=-1, err="worker died with %r outside a run" % (status,)))
                        else:
                            hangs.append((cur, "hang" if hung else "died (%r)" % (status,)))
                            rest_idx = [i for i in s["idx"] if i > cur]
                            if rest_idx and len(hangs) < 4:
                                state.append(launch(s["w"], rest_idx))
            if nviol >= stop_on * 4 or len(errors) > 20:
                for s in state:
                    os.kill(s["pid"], signal.SIGKILL)
                    os.waitpid(s["pid"], 0)
                state = []
                truncated = True
            if _clock() > deadline + hang_s + 30:
                for s in state:
                    os.kill(s["pid"], signal.SIGKILL)
                    os.waitpid(s["pid"], 0)
                state = []
                truncated = True
    finally:
        for s in state:
            try:
                os.kill(s["pid"], signal.SIGKILL)
                os.waitpid(s["pid"], 0)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    return [recs[i] for i in sorted(recs)], errors, sorted(hangs), truncated


def _drain(s, rest, recs, errors):
    s["buf"] += rest
    for ln in s["buf"].split("\n"):
        if not ln.strip():
            continue
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if "start" in m:
            s["cur"] = m["start"]
        elif "end" in m:
            s["fin"] = True
        elif "err" in m:
            errors.append(m)
            s["cur"] = None
        elif "i" in m:
            recs[m["i"]] = m
            s["cur"] = None


def isolated(fn, limit):
    """Run fn() in a forked child; returns its JSON-able result, or
    ('hang',) / ('died', status) if it does not come back."""
    r, w = os.pipe()
    def child():
        os.close(r)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        try:
            res = {"ok": fn()}
        except InvalidPlan:
            res = {"invalid": 1}
        except BaseException as e:
            res = {"err": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:])}
        data = json.dumps(res).encode()
        while data:
            data = data[os.write(w, data):]
        os.close(w)
    pid = _fork(child)
    os.close(w)
    os.set_blocking(r, False)
    buf, t0 = b"", _clock()
    import select
    while True:
        left = limit - (_clock() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"hang": 1}
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {"died": status}


# -------------------------------------------------------------- minimisation

def shrink_candidates(x, fixed=(), path=()):
    """Simpler variants of a JSON value, most aggressive first."""
    if isinstance(x, dict):
        for k in sorted(x):
            if k in fixed or k.startswith("_"):
                continue
            for c in shrink_candidates(x[k], fixed, path + (k,)):
                y = dict(x)
                y[k] = c
                yield y
    elif isinstance(x, list):
        n = len(x)
        if n:
            yield []
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                if size < n:
                    yield x[:a] + x[a + size:]
            size //= 2
        for i in range(n):
            for c in shrink_candidates(x[i], fixed, path + (i,)):
                yield x[:i] + [c] + x[i + 1:]
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        for c in (0, 1, 2, x // 2, x - 1):
            if 0 <= c < x or (x < 0 and c == 0):
                yield c
    elif isinstance(x, float):
        if x != 0.0:
            yield 0.0
            if abs(x) > 1e-3:
                yield round(x / 2, 4)


def minimise(check, plan, seed, decisions, kind, budget_runs, budget_s, limit):
    """Greedy minimisation of (plan, decisions) keeping the violation kind."""
    t0 = _clock()
    runs = [0]
    fixed = getattr(check, "FIXED", ())

    def attempt(p, d):
        if runs[0] >= budget_runs or _clock() - t0 > budget_s:
            return None
        runs[0] += 1
        r = isolated(lambda: _brief(execute(check, p, seed, d)), limit)
        if "ok" in r and any(v["kind"] == kind for v in r["ok"]["v"]):
            return r["ok"]
        if "hang" in r and kind == "no-return":
            return {"v": [{"kind": kind, "detail": "hang"}], "d": d}
        return None

    best = (plan, dict(decisions))
    changed = True
    while changed and runs[0] < budget_runs and _clock() - t0 < budget_s:
        changed = False
        # schedule first: try none, then halves
        d = best[1]
        if d:
            keys = sorted(d, key=int)
            size = len(keys)
            while size >= 1 and keys:
                i = 0
                while i < len(keys):
                    cand = keys[:i] + keys[i + size:]
                    if len(cand) < len(keys) and attempt(best[0], {k: d[k] for k in cand}):
                        keys = cand
                        best = (best[0], {k: d[k] for k in keys})
                        changed = True
                    else:
                        i += size
                    if runs[0] >= budget_runs or _clock() - t0 > budget_s:
                        break
                if runs[0] >= budget_runs or _clock() - t0 > budget_s:
                    break
                size = size // 2
        progress = True
        while progress:
            progress = False
            for cand in shrink_candidates(best[0], fixed):
                if runs[0] >= budget_runs or _clock() - t0 > budget_s:
                    break
                ok = attempt(cand, best[1])
                if ok is None and best[1]:
                    ok = attempt(cand, {})
                    if ok:
                        best = (cand, {})
                        progress = changed = True
                        break
                elif ok:
                    best = (cand, best[1])
                    progress = changed = True
                    break
    return best, runs[0]


def _brief(r):
    return {"v": r.violations, "d": r.decisions, "dig": r.digest, "c": r.counters, "tr": r.trace[:200]}


# ----------------------------------------------------------------- findings

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


# --------------------------------------------------------------------- main

def repo_state():
    try:
        h = hashlib.sha256()
        for root, ds, fs in os.walk(os.path.join(REPO, "cddm")):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".py", ".ini")):
                    with open(os.path.join(root, f), "rb") as g:
                        h.update(f.encode() + g.read())
        return h.hexdigest()[:16]
    except OSError:
        return "?"


def main(check, prop, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS") or 8))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="execute one run index and print everything")
    ap.add_argument("--digests", help="write run digests to this file (determinism self-test)")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t_start = _clock()
    check.setup()
    try:
        return _main(check, prop, a, tier, t_start)
    finally:
        if hasattr(check, "teardown"):
            check.teardown()


def _main(check, prop, a, tier, t_start):
    t_setup = _clock() - t_start
    limit = getattr(check, "HANG_S", 60.0)

    if a.replay:
        return replay(check, prop, a.replay, limit)
    if a.one is not None:
        seed = run_seed(a.seed, prop, a.one)
        plan = json.loads(json.dumps(check.gen(random.Random("plan-" + seed))))
        print(json.dumps(plan, indent=1))
        r = execute(check, plan, seed)
        print("\n".join(str(x) for x in r.trace))
        print(json.dumps(dict(violations=r.violations, counters=r.counters, decisions=len(r.decisions), key=r.key, nontrivial=r.nontrivial, digest=r.digest), indent=1))
        return 1 if r.violations else 0

    n = a.runs or check.RUNS[tier]
    budget = a.budget or {"quick": 420.0, "thorough": 760.0}[tier]
    print("property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d setup=%.1fs" % (prop, tier, a.seed, n, a.workers, t_setup), flush=True)
    rdir = os.path.join(EVIDENCE, "replays")
    for f in os.listdir(rdir) if os.path.isdir(rdir) else []:
        if f.startswith(prop + "-"):        # of an earlier campaign
            os.unlink(os.path.join(rdir, f))
    t0 = _clock()
    recs, errors, hangs, truncated = campaign(check, prop, a.seed, n, a.workers, budget, limit, first=a.first)
    t_runs = _clock() - t0
    if a.digests:
        with open(a.digests, "w") as f:
            for r in recs:
                f.write("%d %s %s %s\n" % (r["i"], r["d"], r["k"], json.dumps(r["v"])))
    known = [k for k in load_known() if k.get("property") == prop]
    viol, knownhits = [], {}
    for r in recs:
        for v in r["v"]:
            k = next((k for k in known if k.get("kind") == v["kind"] and (not k.get("match") or k["match"] in v["detail"])), None)
            if k is not None:
                knownhits.setdefault(k["id"], (k, r, v))
            else:
                viol.append((r["i"], r, v))
    # runs that did not come back: confirm each in isolation before it counts
    for i, how in hangs[:2]:
        if viol:
            break
        seed = run_seed(a.seed, prop, i)
        plan = json.loads(json.dumps(check.gen(random.Random("plan-" + seed))))
        res = [isolated(lambda: _brief(execute(check, plan, seed)), limit) for _ in range(2)]
        if all("hang" in x for x in res) or all("died" in x for x in res):
            kind = "no-return" if "hang" in res[0] else "process-died"
            viol.append((i, dict(i=i, plan=plan, dec={}, d="", v=[]), {"kind": kind, "detail": "run %d %s: the operation does not come back (%s)" % (i, kind, how)}))
        else:
            errors.append(dict(i=i, err="run %d %s but returned in isolation: %s" % (i, how, str(res)[:500])))
    rc = 0
    lines = []
    if viol:
        rc = 1
        viol.sort(key=lambda x: x[0])
        seen = []
        for i, r, v in viol:
            if v["kind"] in seen:
                continue
            seen.append(v["kind"])
            if len(seen) > 3:
                continue
            path = report(check, prop, a, r, v, limit, minimise_it=not a.no_minimise and len(seen) == 1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("violation kind=%s in run %d (of %d violating runs): %s" % (v["kind"], i, len(set(x[0] for x in viol)), v["detail"][:600]))
    for kid in sorted(knownhits):
        k, r, v = knownhits[kid]
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if errors and not viol:
        rc = 2
        for e in errors[:3]:
            print("HARNESS-ERROR run %s: %s" % (e.get("i"), e["err"]), flush=True)
    evidence(check, prop, tier, a, recs, errors, hangs, truncated, t_runs, t_setup, len(set(x[0] for x in viol)), _clock() - t_start, n)
    for ln in lines:
        print(ln, flush=True)
    if rc == 0:
        print("OK property=%s runs=%d distinct=%d simulated=%.1fs wall=%.1fs" % (prop, len(recs), len(set(r["k"] for r in recs if r["nt"])), sum(r["st"] for r in recs), _clock() - t_start))
    return rc


def report(check, prop, a, r, v, limit, minimise_it):
    seed = run_seed(a.seed, prop, r["i"])
    plan, dec = r["plan"], r["dec"]
    kind = v["kind"]
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-run%d.json" % (prop, kind.replace("/", "_"), r["i"]))
    base = isolated(lambda: _brief(execute(check, plan, seed, dec)), limit)
    exact = "ok" in base and any(x["kind"] == kind for x in base["ok"]["v"])
    if kind in ("no-return", "process-died"):
        exact = True
    info = {"runs": 0}
    if minimise_it and exact and kind != "process-died":
        (plan, dec), nr = minimise(check, plan, seed, dec, kind, 400, 90.0, min(limit, 20.0) if kind == "no-return" else limit)
        info = {"runs": nr}
    final = isolated(lambda: _brief(execute(check, plan, seed, dec)), limit)
    fv = final.get("ok", {}).get("v") or [v]
    doc = dict(property=prop, verif_seed=a.seed, run=r["i"], seed=seed, kind=kind,
               violation=next((x for x in fv if x["kind"] == kind), v),
               plan=plan, decisions=dec, digest=final.get("ok", {}).get("dig"),
               original=dict(plan=r["plan"], decisions=r["dec"]),
               minimised=info, replays_exactly=exact, trace=final.get("ok", {}).get("tr", []),
               repo=repo_state(),
               how="bash /verif/run.sh %s --replay %s" % (prop, path))
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def replay(check, prop, path, limit):
    with open(path) as f:
        doc = json.load(f)
    r = isolated(lambda: _brief(execute(check, doc["plan"], doc["seed"], doc["decisions"])), limit)
    if "hang" in r or "died" in r:
        got = ["no-return" if "hang" in r else "process-died"]
        dig = None
    elif "ok" in r:
        got = [x["kind"] for x in r["ok"]["v"]]
        dig = r["ok"]["dig"]
        for x in r["ok"]["v"]:
            print("%s: %s" % (x["kind"], x["detail"]))
        for t in r["ok"]["tr"]:
            print("   ", t)
    else:
        print("HARNESS-ERROR", r)
        return 2
    if doc["kind"] in got:
        print("reproduced kind=%s digest_equal=%s" % (doc["kind"], dig == doc.get("digest")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("not reproduced: expected %s got %s" % (doc["kind"], got))
    return 0


def evidence(check, prop, tier, a, recs, errors, hangs, truncated, t_runs, t_setup, nviol, wall, n):
    counters = {}
    for r in recs:
        for k, v in r["c"].items():
            counters[k] = counters.get(k, 0) + v
    keys = set(r["k"] for r in recs if r["nt"])
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(counters.items()) if not k.startswith(("fault:", "probe:"))}
    dups = [r["dup"] for r in recs if "dup" in r]
    samples = [dict(run=r["i"], plan=r["plan"], schedule_decisions=len(r.get("dec", {}))) for r in recs if "plan" in r][:2]
    doc = dict(property=prop, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=len(recs),
            distinct_nontrivial=len(keys),
            rule=check.RULE,
            samples=samples,
            runs_requested=n,
            stopped_early=bool(truncated),
            runs_per_hour=int(len(recs) / max(t_runs, 1e-6) * 3600),
            simulated_seconds=round(sum(r["st"] for r in recs), 3),
            scheduler_steps=sum(r["n"] for r in recs),
            faults_fired=faults,
            probes_hit=probes,
            counters=other,
            distinct_measure=check.DISTINCT,
            re_executed_for_determinism=len(dups),
            re_executions_identical=sum(1 for d in dups if d[0] and d[1]),
            components_real=check.REAL,
            components_stubbed=check.STUB,
            harness_errors=len(errors),
            hung_runs=len(hangs),
            campaign_wall_s=round(t_runs, 2),
            import_wall_s=round(t_setup, 2),
            repo_digest=repo_state()),
        assumptions=list(getattr(check, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=nviol)
    d = EVIDENCE
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, "%s.json" % prop))
