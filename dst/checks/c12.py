"""C12: importing the configuration under file faults, crashes and races."""
import io, os, shutil, sys, tempfile, contextlib, warnings
import numpy as np
from .. import world, sched, disk
from ..runner import Result, InvalidPlan

TRACE = ("cddm/conf.py",)
BOOLS = {"1": True, "yes": True, "true": True, "on": True, "0": False, "no": False, "false": False, "off": False}
OPTIONS = [("core", "double_precision", "bool", True), ("core", "showlib", "show", "matplotlib"), ("core", "verbose", "int", 0), ("numba", "cache", "bool", True),
           ("numba", "parallel", "bool", False), ("numba", "fastmath", "bool", False), ("numba", "nthreads", "int", None), ("fft", "rfft2lib", "fft", "numpy"),
           ("fft", "fftlib", "fft", "numpy"), ("fft", "nthreads", "int", None)]
ENV = {"CDDM_TARGET_PARALLEL": "parallel", "CDDM_NUMBA_CACHE": "cache", "CDDM_FASTMATH": "fastmath", "CDDM_DOUBLE_PRECISION": "double_precision"}
FFT = {"numpy": "numpy", "numpy.fft": "numpy", "scipy": "scipy", "scipy.fftpack": "scipy", "pyfftw": "pyfftw"}
CODE = {}


def gen_value(rng, kind):
    """(text, value or None when unusable)"""
    if kind == "bool":
        t = rng.choice(sorted(BOOLS) + ["Yes", "NO", "True"])
        if rng.random() < 0.15:
            return rng.choice(["maybe", "2", "", "-1"]), None
        return t, BOOLS[t.lower()]
    if kind == "int":
        if rng.random() < 0.2:
            return rng.choice(["", "two", "1.5", "%(x)s", "0x10"]), None
        v = rng.choice([0, 1, 2, 3, 1000000, -2])
        return str(v), v
    if kind == "fft":
        t = rng.choice(sorted(FFT))
        if rng.random() < 0.2:
            return rng.choice(["fftw3", "", "NumPy", "%d", "mkl_fft"]), None
        return t, FFT[t]
    t = rng.choice(["matplotlib", "matplotlib", "gtk", "cv2", "%"])
    return t, t if t == "matplotlib" else None


SETTER = {"set_verbose": "verbose", "set_showlib": "showlib", "set_fftlib": "fftlib", "set_rfft2lib": "rfft2lib", "set_fft_threads": "fft_nthreads", "set_numba_threads": "numba_nthreads"}
ERROR = object()


def gen_session(rng):
    """Calls of the setters after the import."""
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 4, 8])):
        f = rng.choice(sorted(SETTER))
        if f == "set_verbose":
            a = rng.choice([0, 1, 2, 3, -1])
        elif f == "set_showlib":
            a = rng.choice(["matplotlib", "cv2", "pyqtgraph", "gtk", ""])
        elif f in ("set_fftlib", "set_rfft2lib"):
            a = rng.choice(sorted(FFT) + ["mkl_fft", "fftw3", "NumPy", ""])
        elif f == "set_fft_threads":
            a = rng.choice([1, 2, 3, 8])
        else:
            a = rng.choice([1, 2, 3, 0, -1, 100000])
        out.append([f, a])
    return out


class C12(object):
    RUNS = {"quick": 12000, "thorough": 150000}
    HANG_S = 60.0
    FIXED = ("data",)
    RULE = ("a user configuration directory in a random state (missing, empty, valid, template, truncated, garbled, in the way), environment and core count; one to three phases of one or "
            "two importing processes whose file operations fail, tear, are cut short by a full disk, or end in the death of the process at a chosen operation, or after all of which unsynced data is lost "
            "(power); then an undisturbed import, followed by random calls of the setters; non-trivial: at least one file operation")
    DISTINCT = "hash of the sequence of file operations of all processes, fault kinds, initial state and interleaving, per run"
    REAL = ["cddm.conf (executed as a whole, once per simulated process)", "configparser, shutil, os.path, pathlib, tempfile", "a real scratch directory", "numba.set_num_threads, pyfftw.config"]
    STUB = ["os.* and open() on the configuration directory and the template (errors, torn/short writes, death of the process)", "os.sysconf number of cores", "os.getpid", "processes (tasks of the simulator)"]
    ASSUMPTIONS = ["the death of a process is explored before and after every file operation and inside every write, not between instructions that touch no file"]

    def setup(self):
        world.setup(("cddm.conf",), display=False)
        import numba, scipy, pyfftw, configparser, pathlib    # noqa
        path = os.path.join(world.REPO, "cddm", "conf.py")
        CODE["conf"] = compile(open(path).read(), path, "exec")
        CODE["path"] = path
        with open(os.path.join(world.REPO, "cddm", "cddm.ini"), "rb") as f:
            CODE["template"] = f.read()
        for name in ("mkl_fft", "cv2", "mkl"):
            try:
                __import__(name)
                raise sched.HarnessError("%s is installed here" % name)
            except ImportError:
                pass
        try:
            import pyqtgraph          # noqa
            CODE["pyqtgraph"] = True
        except Exception:
            CODE["pyqtgraph"] = False

    def gen(self, rng):
        state = rng.choice(["fresh", "fresh", "fresh", "nodir", "nodir", "valid", "valid", "template", "empty", "cut", "cut", "garbled", "garbled", "dirfile", "inidir"])
        p = dict(state=state, data=rng.randrange(1 << 30), settings=[], env={}, cores=rng.choice([1, 2, 4, 8, 64, 100000]), phases=[], power=rng.choice([-1, -1, -1, rng.random()]), zero=rng.random() < 0.3,
                 garble=rng.choice(["random", "nul", "utf8", "noheader", "dup", "dupsec", "bom", "junkline", "latin"]), cut=rng.random(), crlf=rng.random() < 0.2, sched=world.gen_sched(rng, 2), trace=False, jumps={})
        p["session"] = gen_session(rng)
        for sec, name, kind, _ in OPTIONS:
            if rng.random() < 0.6:
                p["settings"].append([sec, name] + list(gen_value(rng, kind)))
        if rng.random() < 0.5:
            for e in sorted(ENV):
                if rng.random() < 0.5:
                    p["env"][e] = rng.choice(["0", "1", "0", "1", "", "yes", "1.0", "off", "x"])
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            ph = []
            for _ in range(rng.choice([1, 1, 2])):
                f = {}
                for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    f[str(rng.choice([rng.randint(0, 14), rng.randint(0, 30)]))] = rng.choice(["kill", "kill-after", "torn", "short", "EIO", "EIO", "EACCES", "ENOSPC", "EIO-after", "EMFILE"])
                ph.append(dict(faults=f, persistent=rng.choice([None, None, None, None, "rofs", "full", "noread", "nostat"]), cut=rng.choice([0.0, 0.3, 0.7, rng.random()])))
            p["phases"].append(ph)
        return p

    # --------------------------------------------------------------- files
    def content(self, p):
        lines, last = [], None
        for sec, name, text, _ in sorted(p["settings"], key=lambda s: s[0]):
            if sec != last:
                lines.append("[%s]" % sec)
                last = sec
            lines.append("%s = %s" % (name, text))
        return "\n".join(lines) + "\n"

    def initial(self, p, home):
        """Creates the initial state; returns the bytes of the user's file or None."""
        d = os.path.join(home, ".cddm")
        s = p["state"]
        if s == "nodir":
            return None
        if s == "dirfile":
            with open(d, "wb") as f:
                f.write(b"not a directory\n")
            return None
        os.mkdir(d)
        if s == "fresh":
            return None
        ini = os.path.join(d, "cddm.ini")
        if s == "inidir":
            os.mkdir(ini)
            return None
        b = self.content(p).encode()
        if s == "template":
            b = CODE["template"]
        elif s == "empty":
            b = b""
        elif s == "cut":
            src = b if p["cut"] < 0.5 else CODE["template"]
            b = src[:int(len(src) * (p["cut"] * 2 % 1))]
        elif s == "garbled":
            rs = np.random.RandomState(p["data"])
            g = p["garble"]
            if g == "random":
                b = bytes(rs.randint(0, 256, size=rs.randint(1, 400), dtype="uint8"))
            elif g == "nul":
                b = b[:len(b) // 2] + b"\0" * rs.randint(1, 600)
            elif g == "utf8":
                b = b + b"# \xff\xfe\xfa\n"
            elif g == "noheader":
                b = b"verbose = 2\n" + b
            elif g == "dup":
                b = b + b"[dup]\nx = 1\nx = 2\n"
            elif g == "dupsec":
                b = b + b"[dup]\n[dup]\n"
            elif g == "bom":
                b = b"\xef\xbb\xbf" + b
            elif g == "junkline":
                b = b"[core]\nthis is not a setting\n" + b.replace(b"[core]\n", b"")
            else:
                b = b + b"# caf\xe9\n"
        if p["crlf"] and s in ("valid", "template"):
            b = b.replace(b"\n", b"\r\n")
        with open(ini, "wb") as f:
            f.write(b)
        return b

    # ------------------------------------------------------------- settings
    def read(self, m):
        """Settings of an executed configuration module."""
        c = m["CDDMConfig"]
        return dict(double_precision=m["PRECISION"] == "double", showlib=c.showlib, verbose=c.verbose, cache=m["NUMBA_CACHE"], parallel=m["NUMBA_PARALLEL"], fastmath=m["NUMBA_FASTMATH"],
                    numba_nthreads=c.numba_threads, rfft2lib=c.rfft2lib, fftlib=c.fftlib, fft_nthreads=c.fft_threads,
                    consistent=(m["NUMBA_TARGET"] == ("parallel" if m["NUMBA_PARALLEL"] else "cpu")) and (m["FDTYPE"] == np.dtype("float64" if m["PRECISION"] == "double" else "float32")) and
                    m["CDTYPE"] == np.dtype("complex128" if m["PRECISION"] == "double" else "complex64") and str(m["F"]) == str(m["FDTYPE"]) and str(m["C"]) == str(m["CDTYPE"]))

    def expected(self, p, usefile):
        """Settings with a valid file (usefile) or without."""
        import numba
        maxn = numba.config.NUMBA_NUM_THREADS
        cores = p["cores"]
        e = {}
        vals = {(s, n): v for s, n, _, v in p["settings"] if v is not None} if usefile else {}
        for sec, name, kind, default in OPTIONS:
            v = vals.get((sec, name), default)
            if name == "verbose":
                v = max(0, v)
            elif name == "nthreads":
                name = sec + "_nthreads"
                if v is None:
                    v = cores
                if sec == "numba" and not 1 <= v <= maxn:
                    v = maxn
            e[name] = v
        for k, name in ENV.items():
            t = p["env"].get(k)
            if t in ("0", "1"):
                e[name] = t == "1"
        e["consistent"] = True
        return e

    def setter(self, f, a, now):
        """The setting after a call of a setter, or ERROR."""
        import numba
        if f == "set_verbose":
            return max(0, a)
        if f == "set_showlib":
            if a not in ("matplotlib", "cv2", "pyqtgraph"):
                return ERROR
            return a if a == "matplotlib" or CODE["pyqtgraph"] and a == "pyqtgraph" else now
        if f in ("set_fftlib", "set_rfft2lib"):
            return now if a == "mkl_fft" else FFT.get(a, ERROR)
        if f == "set_fft_threads":
            return a
        return a if 1 <= a <= numba.config.NUMBA_NUM_THREADS else ERROR

    def session(self, plan, m):
        """Calls the setters one after another; returns what is wrong, or None."""
        import numba, pyfftw
        for k, (f, a) in enumerate(plan.get("session", ())):
            before = self.read(m)
            opt = SETTER[f]
            want = self.setter(f, a, before[opt])
            what = "call %d, %s(%r) with %s %r" % (k, f, a, opt, before[opt])
            try:
                old = m[f](a)
            except ValueError as e:
                if want is not ERROR:
                    return "%s: %r" % (what, e)
                if self.read(m) != before:
                    return "%s: refused, but the settings changed" % what
                continue
            if want is ERROR:
                return "%s: accepted" % what
            if old != before[opt]:
                return "%s returned %r as the previous setting" % (what, old)
            if self.read(m) != dict(before, **{opt: want}):
                return "%s: expected %r, settings now %r" % (what, want, self.read(m))
            if f == "set_fft_threads" and pyfftw.config.NUM_THREADS != a or f == "set_numba_threads" and numba.get_num_threads() != a:
                return "%s: not passed on to the library" % what
        return None

    def mentioned(self, b, p):
        """For a damaged file: every value that some line of it gives."""
        out = {}
        text = b.decode("latin-1")
        for ln in text.replace("\r", "\n").split("\n"):
            for sep in "=:":
                k, s, v = ln.partition(sep)
                if s:
                    out.setdefault(k.strip().lower(), []).append(v.strip())
        return out

    # ------------------------------------------------------------------ run
    def execute(self, plan, seed, decisions=None):
        import numba, pyfftw
        r = Result()
        home = tempfile.mkdtemp(prefix="c12-", dir=os.environ.get("DST_SCRATCH"))
        ini = os.path.join(home, ".cddm", "cddm.ini")
        keep = {k: os.environ.get(k) for k in list(ENV) + ["HOME"]}
        threads0, fftw0 = numba.get_num_threads(), pyfftw.config.NUM_THREADS
        template = os.path.join(world.REPO, "cddm", "cddm.ini")
        sysconf = os.sysconf
        try:
            user = self.initial(plan, home)
            os.environ["HOME"] = home
            for k, v in plan["env"].items():
                if k not in ENV:
                    raise InvalidPlan("environment")
                os.environ[k] = v
            os.sysconf = lambda name: plan["cores"] if name == "SC_NPROCESSORS_ONLN" else sysconf(name)
            sim = world.make_sim(plan, seed, decisions, TRACE, fair_after=6000, max_steps=60000)
            results, pid = [], [100]
            created = user is None and plan["state"] in ("fresh", "nodir")
            lost = [False]

            def process(spec, last=False):
                pid[0] += 1
                p = disk.Process(pid[0], spec["faults"], spec["persistent"], spec["cut"])
                res = dict(process=p, error=None, settings=None, last=last)
                results.append(res)

                def body():
                    sched.current_task().process = p
                    m = {"__name__": "cddm.conf", "__file__": CODE["path"], "__builtins__": __builtins__, "__package__": "cddm", "__doc__": None}
                    try:
                        exec(CODE["conf"], m)
                        res["settings"] = self.read(m)
                        if last:
                            res["session"] = self.session(plan, m)
                    except disk.Killed:
                        pass
                    except Exception as e:
                        if not p.dead:
                            res["error"] = e
                return body

            def main():
                for k, ph in enumerate(plan["phases"]):
                    tasks = [sim.spawn(process(s), "process-%d" % i) for i, s in enumerate(ph)]
                    for t in tasks:
                        sim.join(t, None)
                    if plan["power"] >= 0 and k == len(plan["phases"]) - 1 and user is None:
                        self.power(plan, home, sim)
                        lost[0] = True
                t = sim.spawn(process(dict(faults={}, persistent=None, cut=0), True), "last")
                sim.join(t, None)
            D = disk.Disk([home], [template])
            out = io.StringIO()
            with warnings.catch_warnings(), contextlib.redirect_stdout(out), D:
                warnings.simplefilter("ignore")
                sim.run(("main", main))
            r.take(sim)
            if sim.failure is not None:
                r.bad("no-progress", str(sim.failure))
            for name, tb in sim.thread_exceptions:
                raise sched.HarnessError(name + "\n" + tb)
            valid = user is not None and plan["state"] in ("valid", "template", "empty")
            dflt = self.expected(plan, False)
            exp = self.expected(plan, plan["state"] == "valid")
            for res in results:
                p = res["process"]
                what = "process %d (%s, faults %r)" % (p.pid, plan["state"], p.fired)
                if p.dead:
                    r.count("probe:process_died")
                    continue
                if res["error"] is not None:
                    r.bad("import-fails", "%s: %s: %s" % (what, type(res["error"]).__name__, res["error"]))
                    continue
                s = res["settings"]
                if s is None:
                    if not r.violations:
                        r.bad("import-fails", "%s: did not finish" % what)
                    continue
                if res.get("session"):
                    r.bad("setter", res["session"])
                quiet = not p.fired
                ment = self.mentioned(user, plan) if user is not None and not valid else {}
                for k in sorted(exp):
                    if s[k] == exp[k] or (not quiet or not valid) and s[k] == dflt[k]:
                        continue
                    opt = k.split("_")[-1] if k.endswith("nthreads") else k
                    if opt in ment and self.given(opt, s[k], ment[opt]):
                        continue
                    r.bad("setting", "%s: %s is %r, expected %r (default %r)" % (what, k, s[k], exp[k], dflt[k]))
                    break
            if user is not None:
                try:
                    with open(ini, "rb") as f:
                        now = f.read()
                except OSError as e:
                    now = repr(e)
                if now != user:
                    r.bad("user-file-modified", "the user's file (%s) was changed: %r -> %r; operations %r" % (plan["state"], user[:60], now[:60], [x["process"].fired for x in results]))
            elif created and not lost[0]:
                try:
                    with open(ini, "rb") as f:
                        now = f.read()
                except OSError as e:
                    now = repr(e).encode()
                if now != CODE["template"]:
                    r.bad("incomplete-file", "after an undisturbed import cddm.ini has %d of %d bytes of the template (%r); faults before: %r" % (len(now), len(CODE["template"]), now[:40], [x["process"].fired for x in results]))
        finally:
            os.sysconf = sysconf
            for k, v in keep.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            numba.set_num_threads(threads0)
            pyfftw.config.NUM_THREADS = fftw0
            shutil.rmtree(home, ignore_errors=True)
        r.count("probe:state_" + plan["state"])
        ops = [[x[1:] for x in res["process"].log] for res in results]
        r.key = world.digest(ops, [res["process"].fired for res in results], plan["state"], sim.digest())
        r.nontrivial = any(ops)
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), [(str(x["error"]).replace(home, ""), x["settings"]) for x in results], [v["kind"] for v in r.violations])
        r.trace = ["%d %s %s %r" % e for e in sim.log]
        return r

    def given(self, opt, value, texts):
        import numba
        maxn = numba.config.NUMBA_NUM_THREADS
        for t in texts:
            if opt in ("nthreads", "verbose"):
                try:
                    if value == max(0, int(t)) or value == int(t):
                        return True
                    if opt == "nthreads" and value == maxn and not 1 <= int(t) <= maxn:
                        return True          # out of range: as many as there are
                except ValueError:
                    pass
            elif opt in ("fftlib", "rfft2lib"):
                if FFT.get(t) == value:
                    return True
            elif opt == "showlib":
                if t == value:
                    return True
            elif BOOLS.get(t.lower()) == value:
                return True
        return False

    def power(self, plan, home, sim):
        """Unsynced data is lost: files written so far are cut or zeroed."""
        D = os.path.join(home, ".cddm")
        if not os.path.isdir(D):
            return
        for f in sorted(os.listdir(D)):
            path = os.path.join(D, f)
            if not os.path.isfile(path):
                continue
            b = open(path, "rb").read()
            k = int(plan["power"] * len(b))
            b = b[:k] + (b"\0" * (len(b) - k) if plan["zero"] else b"")
            with open(path, "wb") as fh:
                fh.write(b)
            sim.count("fault:power_loss")


CHECK = C12()
