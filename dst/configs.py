"""The package under its compile-time options.

Precision, fastmath and the parallel target are fixed when the package is
imported, so each configuration lives in a process of its own: it imports the
package once, and a child of it, one per client, executes the runs."""
import os, sys, json, socket, struct, signal, subprocess, time

#: name: environment variables, contents of cddm.ini
CONFIGS = {
    "single": ({"CDDM_DOUBLE_PRECISION": "0"}, None),
    "parallel": ({"CDDM_TARGET_PARALLEL": "1", "CDDM_FASTMATH": "1"}, None),
    "inifile": ({}, "[core]\ndouble_precision = no\nverbose = 0\n[numba]\ncache = yes\nparallel = yes\nfastmath = yes\n[fft]\nrfft2lib = scipy\nfftlib = pyfftw\n"),
}
#: what must be in force: single precision, parallel target, fastmath, libraries
EXPECT = {
    "single": (True, False, False, None),
    "parallel": (False, True, True, None),
    "inifile": (True, True, True, ("scipy", "pyfftw")),
}
SUBS = ("c05", "c06", "c07", "c08", "c09", "c10", "c14", "c16", "c17", "c18", "c19", "c20")

_clock = time.monotonic


def _send(s, obj):
    data = json.dumps(obj).encode()
    s.sendall(struct.pack("!I", len(data)) + data)


def _recv(s):
    def exactly(n):
        buf = b""
        while len(buf) < n:
            d = s.recv(n - len(buf))
            if not d:
                raise EOFError
            buf += d
        return buf
    return json.loads(exactly(struct.unpack("!I", exactly(4))[0]).decode())


# ------------------------------------------------------------------ the client

class Client(object):
    """Starts the configurations, and sends them runs."""

    def __init__(self):
        self.procs, self.paths, self.socks = {}, {}, {}
        self.pid = os.getpid()

    def start(self, scratch):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for name, (env, ini) in CONFIGS.items():
            d = os.path.join(scratch, "config-" + name)
            os.makedirs(os.path.join(d, "home", ".cddm"))
            if ini is not None:
                with open(os.path.join(d, "home", ".cddm", "cddm.ini"), "w") as f:
                    f.write(ini)
            e = dict(os.environ, HOME=os.path.join(d, "home"), DST_CONFIG=name)
            e["NUMBA_CACHE_DIR"] = os.path.join(os.environ.get("NUMBA_CACHE_DIR") or d, name)
            os.makedirs(e["NUMBA_CACHE_DIR"], exist_ok=True)
            for v in ("CDDM_DOUBLE_PRECISION", "CDDM_TARGET_PARALLEL", "CDDM_FASTMATH", "CDDM_NUMBA_CACHE"):
                e.pop(v, None)
            e.update(env)
            e["PYTHONPATH"] = os.pathsep.join([here] + [p for p in sys.path if p])
            self.paths[name] = os.path.join(d, "sock")
            log = open(os.path.join(d, "log"), "w")
            self.procs[name] = subprocess.Popen([sys.executable, "-c", "import dst.configs as c; c.serve(%r)" % self.paths[name]], env=e,
                                                stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True)
            self._wait(name, d)        # one after the other: each compiles in parallel

    def _wait(self, name, d):
        t0 = _clock()
        while not os.path.exists(self.paths[name]):
            if self.procs[name].poll() is not None or _clock() - t0 > 600:
                with open(os.path.join(d, "log")) as f:
                    text = f.read()[-3000:]
                self.stop()
                raise RuntimeError("configuration %s did not start:\n%s" % (name, text))
            time.sleep(0.05)

    def stop(self):
        for p in self.procs.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()

    def ask(self, name, msg):
        if os.getpid() != self.pid:          # forked: connections are not shared
            self.pid, self.socks = os.getpid(), {}
        if name not in self.socks:
            s = socket.socket(socket.AF_UNIX)
            s.connect(self.paths[name])
            self.socks[name] = s
        try:
            _send(self.socks[name], msg)
            return _recv(self.socks[name])
        except (EOFError, OSError):
            self.socks.pop(name).close()
            return {"died": 1}


# ------------------------------------------------------------------ the server

def _load():
    """Imports the package behind the seams; returns the checks."""
    import importlib
    from . import pool
    if EXPECT[os.environ["DST_CONFIG"]][1]:
        pool.install()
        os.environ["DST_POOL"] = "1"
    checks = {}
    for c in SUBS:
        checks[c] = importlib.import_module("dst.checks." + c).CHECK
        checks[c].setup()
    return checks


def in_force():
    """Which options the imported package really works with."""
    import numpy as np
    import cddm.conf as c
    from cddm import _core_nb
    single = c.FDTYPE == np.float32 and c.CDTYPE == np.complex64
    double = c.FDTYPE == np.float64 and c.CDTYPE == np.complex128
    libs = (str(c.CDDMConfig.rfft2lib), str(c.CDDMConfig.fftlib))
    return dict(single=single, double=double, parallel=c.NUMBA_TARGET == "parallel" and bool(c.NUMBA_PARALLEL), serial=c.NUMBA_TARGET == "cpu" and not c.NUMBA_PARALLEL,
                fastmath=bool(c.NUMBA_FASTMATH), libs=libs)


def serve(path):
    import ctypes, gc
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # ends with its parent
    sys.path.insert(0, os.environ.get("DST_REPO", "/repo"))
    force = None
    checks = _load()
    force = in_force()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    gc.collect()
    gc.freeze()
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + ".tmp")
    srv.listen(64)
    os.rename(path + ".tmp", path)
    while True:
        s, _ = srv.accept()
        pid = os.fork()
        if pid == 0:
            srv.close()
            try:
                _child(s, checks, force)
            finally:
                os._exit(0)
        s.close()


def _child(s, checks, force):
    import traceback
    from . import runner, pool
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    while True:
        try:
            m = _recv(s)
        except EOFError:
            return
        try:
            if m["op"] == "force":
                res = dict(force=force)
            else:
                check = checks[m["sub"]]
                pool.begin(m["seed"])
                r = runner.execute(check, m["plan"], m["seed"], m["decisions"])
                for k, v in pool.COUNT.items():
                    r.count(k, v)
                r.nontrivial = bool(r.nontrivial)
                res = dict(result=r.__dict__)
        except runner.InvalidPlan as e:
            res = dict(invalid=str(e))
        except BaseException as e:
            res = dict(err="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
        _send(s, res)
