"""Fill the run's private compilation cache in parallel (an optimisation only:
whatever is missing is compiled by the importing process as usual).

Compiled functions come from the repository's current sources and go to a cache
directory that exists for one run only, so nothing stale can be picked up."""
import os, subprocess, sys, time


def main(k, n):
    import numba
    if os.environ.get("DST_POOL"):
        from . import pool
        pool.install()
    count = [0]

    def every_nth(real):
        def deco(*args, **kw):
            count[0] += 1
            if count[0] % n == k:
                return real(*args, **kw)
            return lambda f: f
        return deco

    numba.guvectorize = every_nth(numba.guvectorize)
    numba.vectorize = every_nth(numba.vectorize)
    import cddm._core_nb
    import cddm._sim_nb


def run(n=8):
    if os.environ.get("DST_NO_WARM"):
        return
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([here] + [p for p in sys.path if p]))
    t = time.time()
    ps = [subprocess.Popen([sys.executable, "-c", "import dst.warm; dst.warm.main(%d, %d)" % (k, n)], env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for k in range(n)]
    for p in ps:
        try:
            p.wait(timeout=max(1, 150 - (time.time() - t)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
