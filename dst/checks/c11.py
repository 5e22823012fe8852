"""C11: loading a video stores every frame or reports failure."""
import contextlib, io, os, resource, shutil, signal, tempfile
import numpy as np
from .. import world, sched
from ..runner import Result, InvalidPlan
from .c01 import Source, as_generator
from .c08 import AllocFaults

TRACE = ("cddm/video.py",)
DTYPES = ("uint8", "uint16", "int32", "float32", "float64", "complex64", "complex128", "bool")
NAMES = ("vid", "vid_0", "vid_0_1", "vi", "a.npy", "b", "vid_1", "V")


class Refill(object):
    """A source that hands out the same buffers, refilled for every frame."""
    def __init__(self, src):
        self.src, self.bufs = src, None

    def __iter__(self):
        return self

    def __next__(self):
        frames = next(self.src)
        if self.bufs is None or [b.shape for b in self.bufs] != [f.shape for f in frames]:
            self.bufs = tuple(np.array(f) for f in frames)
        for b, f in zip(self.bufs, frames):
            b[...] = f
        return self.bufs


class Storage(object):
    """np.lib.format.open_memmap behind the simulator: the k-th file created
    by a simulated task fails (before or after the file came into being)."""
    def __init__(self, sim, k, kind):
        self.sim, self.k, self.kind, self.n = sim, k, kind, 0
        self.fired = None

    def __enter__(self):
        import numpy.lib.format as F
        self.F, self.real = F, F.open_memmap
        F.open_memmap = self.open
        return self

    def __exit__(self, *a):
        self.F.open_memmap = self.real

    def open(self, filename, *a, **kw):
        if sched.current_task() is None:
            return self.real(filename, *a, **kw)
        n = self.n
        self.n += 1
        self.sim.yield_point("sync", "open")
        if n == self.k:
            e = {"open": OSError(13, "Permission denied"), "full": OSError(28, "No space left on device"), "late": OSError(5, "I/O error"),
                 "torn": OSError(28, "No space left on device"), "memory": MemoryError("mmap")}[self.kind]
            self.fired = e
            self.sim.count("fault:storage_" + self.kind)
            if self.kind == "late":
                self.real(filename, *a, **kw)
            elif self.kind == "torn":
                with open(filename, "wb") as f:
                    f.write(b"\x93NUMPY\x01\x00")
            raise e
        return self.real(filename, *a, **kw)


def make_frames(p, salt):
    rs = np.random.RandomState((p["data"] + 7919 * salt) & 0x3fffffff)
    out = []
    for k in range(p["deliver"]):
        fr = []
        for c in range(p["ncam"]):
            shape = tuple(p["shape"]) if c == 0 or not p["shape2"] else tuple(p["shape2"])
            dt = np.dtype(p["dtype"] if c == 0 or not p["dtype2"] else p["dtype2"])
            x = rs.randint(1, 250, size=shape)
            if dt.kind == "b":
                x = x % 2
            elif dt.kind == "c":
                x = x + 1j * rs.randint(1, 99, size=shape)
            elif dt.kind == "f":
                x = x + rs.rand(*shape)
            fr.append(x.astype(dt))
        out.append(tuple(fr))
    return out


def spoil(p, frames):
    """Frames that do not fit the ones before them."""
    k = p["odd_at"]
    if p["odd"] == "none" or k >= len(frames) or k < 1:
        return False
    f = list(frames[k])
    if p["odd"] == "fewer":
        f = f[:-1]
    elif p["odd"] == "more":
        f = f + [f[0]]
    elif p["odd"] == "thin":             # broadcastable
        c = p["odd_at"] % len(f)
        if f[c].shape[0] == 1:
            return False
        f[c] = f[c][:1]
    elif p["odd"] == "wide":
        c = p["odd_at"] % len(f)
        f[c] = np.concatenate((f[c], f[c][:1]))
    frames[k] = tuple(f)
    return True


class C11(object):
    RUNS = {"quick": 12000, "thorough": 150000}
    HANG_S = 60.0
    FIXED = ("data", "dtype", "dtype2", "shape", "shape2", "ncam", "how", "kind")
    RULE = ("one or two videos loaded, one after the other or in two threads, by asarrays, asmemmaps or load, from lists, tuples, iterators, generators, prefetch threads or refilled "
            "buffers with delays; one fault in most runs: source ends early, raises, goes on, changes cameras or shape; allocation fails; a file can not be created (n-th file, "
            "missing folder, folder in its place, file size limit); stale files present; non-trivial: at least one frame was announced or delivered")
    DISTINCT = "hash of context switches, function, source kind, lengths, fault and outcome, per run"
    REAL = ["cddm.video.asarrays/asmemmaps/load/fromarrays", "cddm.video.threaded", "cddm.print_tools", "numpy.memmap and the file system of a scratch directory"]
    STUB = ["camera (frame source)", "numpy.empty/zeros (raise at a chosen call)", "numpy.lib.format.open_memmap (raises at a chosen call, otherwise real)", "clock, locks, threads (scheduler-owned)"]

    def setup(self):
        world.setup(("cddm.video", "cddm.print_tools"))

    # ------------------------------------------------------------------ plans
    def gen_job(self, rng, k):
        how = rng.choice(["asarrays", "asmemmaps", "asmemmaps", "load"])
        count = rng.choice([1, 1, 2, 3, 5, 8, 17])
        p = dict(how=how, count=count, deliver=count, give=True, ncam=rng.choice([1, 1, 2, 2, 3]), shape=rng.choice([[4], [3, 5], [4, 4], [1, 6], [2, 3, 2]]), shape2=rng.choice([None, None, None, [3, 2], [5]]),
                 dtype=rng.choice(DTYPES), dtype2=rng.choice([None, None, None] + list(DTYPES)), data=rng.randrange(1 << 30), src=rng.choice(["list", "tuple", "iter", "gen", "loaded", "refill"]),
                 fail_at=-1, fail_kind="SourceError", odd="none", odd_at=-1, qs=rng.choice([None, None, None, 0, 1, 3]), sd=world.gen_delays(rng, count), alloc=-1, store=-1, store_kind="open",
                 place=None, stale=rng.choice([None, None, "longer", "garbage"]), name=NAMES[k] if rng.random() < 0.5 else rng.choice(NAMES))
        f = rng.choice(["none", "none", "short", "short", "raise", "raise", "surplus", "odd", "odd", "alloc", "store", "place", "nocount"])
        if f == "short":
            p["deliver"] = rng.randint(0, count - 1)
        elif f == "surplus":
            p["deliver"] = count + rng.choice([1, 1, 2, 7])
        elif f == "raise":
            p["fail_at"] = rng.choice([0, 0, count - 1, count, rng.randint(0, count)])
            p["fail_kind"] = rng.choice(["SourceError", "OSError", "ValueError", "MemoryError", "StopAsync", "KeyboardInterrupt"])
            p["src"] = rng.choice(["iter", "gen", "refill"])
        elif f == "odd":
            p["odd"] = rng.choice(["fewer", "more", "thin", "wide"])
            p["odd_at"] = rng.randint(1, max(1, count - 1))
        elif f == "alloc":
            p["alloc"] = rng.randint(0, 3)
        elif f == "store":
            p["store"] = rng.randint(0, p["ncam"] - 1)
            p["store_kind"] = rng.choice(["open", "full", "late", "torn", "memory"])
        elif f == "place":
            p["place"] = rng.choice(["missing", "folder", "limit"])
        if f == "nocount" or rng.random() < 0.25:
            p["give"] = False
        if p["src"] == "refill" or p["fail_kind"] == "KeyboardInterrupt":
            p["qs"] = None
        return p

    def gen(self, rng):
        njobs = rng.choice([1, 1, 2, 2])
        jobs = [self.gen_job(rng, k) for k in range(njobs)]
        concurrent = njobs > 1 and rng.random() < 0.7
        if njobs > 1:
            while jobs[0]["name"] == jobs[1]["name"]:
                jobs[1]["name"] = rng.choice(NAMES)
        return dict(jobs=jobs, concurrent=concurrent, verbose=rng.choice([0, 1, 2, -1, -2]), sched=world.gen_sched(rng, njobs + 1), jumps=world.gen_jumps(rng, 0.2), opcodes=rng.random() < 0.05)

    def prepare(self, p, k, scratch):
        from cddm import video as V
        frames = make_frames(p, k)
        odd = spoil(p, frames)
        loaded = frames
        if p["src"] == "loaded" and frames and not odd:
            loaded = V.load(list(frames))
        base = os.path.join(scratch, p["name"])
        if p["place"] == "missing":
            base = os.path.join(scratch, "nowhere%d" % k, p["name"])
        files = [base + "_%d.npy" % c for c in range(p["ncam"])]
        if p["how"] == "asmemmaps" and p["place"] == "folder":
            os.mkdir(files[-1])
        elif p["how"] == "asmemmaps" and p["stale"] and p["place"] is None:
            with open(files[0], "wb") as f:
                if p["stale"] == "garbage":
                    f.write(b"\x93NUMPY garbage" * 50)
                else:
                    np.save(f, np.ones((200, 7)))
        return dict(prep=(frames, odd, loaded), base=base, files=files)

    # -------------------------------------------------------------- one load
    def run_job(self, p, k, sim, scratch, st):
        from cddm import video as V
        frames, odd, loaded = st["prep"]
        failure = world.FAILURES[p["fail_kind"]](p["fail_at"]) if p["fail_at"] >= 0 else None
        st.update(frames=[tuple(np.array(f) for f in fr) for fr in frames], odd=odd, failure=failure, ended=None, out=None)
        src = Source(sim, frames, p["sd"], p["fail_at"], failure, lambda k: None)
        lazy = True
        if p["src"] == "list":
            src, lazy = list(frames), False
        elif p["src"] == "tuple":
            src, lazy = tuple(frames), False
        elif p["src"] == "loaded":
            src, lazy = loaded, False
        elif p["src"] == "gen":
            src = as_generator(src)
        elif p["src"] == "refill":
            src = Refill(src)
        if p["qs"] is not None:
            src, lazy = V.threaded(src, p["qs"]), True
        st["lazy"] = lazy
        base = st["base"]
        args = (src, p["count"]) if p["give"] else (src,)
        # the generator function itself raises ValueError for sources without length
        try:
            if p["how"] == "asmemmaps":
                out = V.asmemmaps(base, *args)
            else:
                out = getattr(V, p["how"])(*args)
            st["out"] = out
            st["ended"] = "ok"
        except (Exception, KeyboardInterrupt) as e:
            st["ended"] = e
        sim.event("done", job=k)

    def judge(self, p, st, r, k, storage, allocated):
        """What the call returned against the frames delivered."""
        what = "%s of %s, count %s, %d delivered" % (p["how"], p["src"], p["count"] if p["give"] else "not given", p["deliver"])
        ended, out, frames = st["ended"], st["out"], st["frames"]
        if ended is None:
            return                                     # did not finish: reported elsewhere
        count = p["count"] if p["give"] else p["deliver"]
        must = None
        if st["failure"] is not None and p["fail_at"] <= p["deliver"]:
            must = "the source raised"
        elif p["deliver"] != count or count == 0 or (not p["give"] and st["lazy"]):
            must = "the source had %d frames" % p["deliver"]
        elif st["odd"]:
            must = "frame %d does not fit (%s)" % (p["odd_at"], p["odd"])
        elif p["how"] == "asmemmaps" and (storage.fired is not None and p.get("hit") or p["place"] in ("missing", "folder")):
            must = "a file could not be created"
        may = p["how"] == "asmemmaps" and (storage.fired is not None or p["place"] == "limit") or allocated
        if ended == "ok":
            if must:
                r.bad("incomplete-returned", "%s: returned normally although %s" % (what, must))
                return
            self.compare(p, st, out, r, what)
            if p["how"] == "asmemmaps" and not r.violations:
                for a in out:
                    a.flush()
                disk = []
                for f in st["files"]:
                    with open(f, "rb") as fh:
                        disk.append(np.load(fh))
                for c, (a, b) in enumerate(zip(out, disk)):
                    if a.dtype != b.dtype or a.shape != b.shape or a.tobytes() != b.tobytes():
                        r.bad("disk", "%s: %s does not hold the frames of camera %d" % (what, os.path.basename(st["files"][c]), c))
            return
        if must is None and not may:
            r.bad("rejected", "%s: %s: %s" % (what, type(ended).__name__, ended))
            return
        if st["failure"] is not None and p["fail_at"] <= min(count, p["deliver"]) and (p["give"] or not st["lazy"]) and not may and not world.same_error(ended, st["failure"]):
            r.bad("unexpected-exception", "%s: source raised %r, the caller got %r" % (what, st["failure"], ended))

    def compare(self, p, st, out, r, what):
        frames = st["frames"]
        if p["how"] == "load":
            if not isinstance(out, tuple) or len(out) != len(frames) or [len(x) for x in out] != [len(x) for x in frames]:
                r.bad("shape", "%s: result has not the structure of the video" % what)
                return
            cams = [[x[c] for x in out] for c in range(p["ncam"])]
        else:
            if not isinstance(out, tuple) or len(out) != p["ncam"]:
                r.bad("shape", "%s: %r arrays for %d cameras" % (what, len(out), p["ncam"]))
                return
            cams = out
        for c in range(p["ncam"]):
            if len(cams[c]) != len(frames):
                r.bad("shape", "%s: camera %d has %d frames" % (what, c, len(cams[c])))
                return
            for j, x in enumerate(frames):
                y = np.asarray(cams[c][j])
                if y.shape != x[c].shape or y.dtype != x[c].dtype:
                    r.bad("shape", "%s: frame %d of camera %d is %s %s instead of %s %s" % (what, j, c, y.shape, y.dtype, x[c].shape, x[c].dtype))
                    return
                if y.tobytes() != x[c].tobytes():
                    other = [(a, b) for a in range(len(frames)) for b in range(p["ncam"]) if frames[a][b].shape == y.shape and np.array_equal(frames[a][b], y)]
                    r.bad("wrong-frame", "%s: frame %d of camera %d is not the one delivered%s" % (what, j, c, ", it is (frame, camera) %r" % (other[:2],) if other else ""))
                    return

    # ---------------------------------------------------------------- runs
    def execute(self, plan, seed, decisions=None):
        from cddm import conf
        r = Result()
        jobs = plan["jobs"]
        for p in jobs:
            if p["count"] < 1 or p["deliver"] < 0 or p["ncam"] < 1 or not p["shape"]:
                raise InvalidPlan("job")
        if len({p["name"] for p in jobs}) < len(jobs):
            raise InvalidPlan("one base name used twice")
        sim = world.make_sim(plan, seed, decisions, TRACE, fair_after=8000, max_steps=40000)
        scratch = tempfile.mkdtemp(prefix="c11-", dir=os.environ.get("DST_SCRATCH"))
        states = [dict() for _ in jobs]
        k = max([p["store"] for p in jobs])
        owner = [p for p in jobs if p["store"] == k][0]
        storage = Storage(sim, k, owner["store_kind"])
        alloc = AllocFaults(sim, max(p["alloc"] for p in jobs))
        # a fault that is armed for the process hits whoever comes first
        conc = plan["concurrent"] and len(jobs) > 1
        for p in jobs:
            p["hit"] = len(jobs) == 1 and p["store"] >= 0
        verbose = conf.CDDMConfig.verbose
        conf.CDDMConfig.verbose = plan["verbose"]
        limit = None
        if any(p["place"] == "limit" for p in jobs):
            limit = resource.getrlimit(resource.RLIMIT_FSIZE)
            old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        stdout = io.StringIO()
        try:
            with contextlib.redirect_stdout(stdout):
                for i, p in enumerate(jobs):
                    states[i].update(self.prepare(p, i, scratch))

            def task(i):
                return lambda: self.run_job(jobs[i], i, sim, scratch, states[i])

            def in_turn():
                for i in range(len(jobs)):
                    task(i)()
            tasks = [("load-%d" % i, task(i)) for i in range(len(jobs))] if conc else [("load", in_turn)]
            with contextlib.redirect_stdout(stdout), storage, alloc:
                if limit:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (200, limit[1]))
                    sim.count("fault:file_size_limit")
                try:
                    sim.run(*tasks)
                finally:
                    if limit:
                        resource.setrlimit(resource.RLIMIT_FSIZE, limit)
            r.take(sim)
            if sim.failure is not None:
                r.bad("no-progress", str(sim.failure))
            for name, tb in sim.thread_exceptions:
                if name.startswith("load"):
                    raise sched.HarnessError(tb)
            allocated = "fault:allocation" in sim.counters
            for i, p in enumerate(jobs):
                if "ended" in states[i] and not r.violations:
                    if limit and p["how"] == "asmemmaps":
                        p = dict(p, place="limit")
                    self.judge(p, states[i], r, i, storage, allocated)
            if plan["verbose"] <= 0 and stdout.getvalue().strip():
                r.count("probe:output")
        finally:
            conf.CDDMConfig.verbose = verbose
            if limit:
                signal.signal(signal.SIGXFSZ, old)
            out = [type(s.get("ended")).__name__ if s.get("ended") != "ok" else "ok" for s in states]
            states = None
            shutil.rmtree(scratch, ignore_errors=True)
        for p in jobs:
            r.count("probe:" + p["how"])
            if p["how"] == "asmemmaps" and p["stale"]:
                r.count("probe:stale_file")
            if p["odd"] != "none":
                r.count("fault:frames_do_not_fit")
            if p["deliver"] < p["count"]:
                r.count("fault:early_end")
            if p["deliver"] > p["count"]:
                r.count("fault:surplus_frames")
            if p["place"]:
                r.count("fault:place_" + p["place"])
        r.key = world.digest(sim.digest(), [(p["how"], p["src"], p["count"], p["deliver"], p["odd"], p["fail_at"], p["place"], p["store"]) for p in jobs], out)
        r.nontrivial = any(p["count"] for p in jobs)
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), out, [v["kind"] for v in r.violations])
        r.trace = ["%d %s %s %r" % e for e in sim.log]
        return r


CHECK = C11()
