"""Planted bugs: python3 tools/bug.py new SPEC.py | verify ID... | check ID...

SPEC.py defines id, prop, needs, breaks, edits (file, old, new), demo (python text).
Everything happens in a scratch worktree of /repo that is removed afterwards; `check`
runs the registered quick check of the property there (DST_REPO)."""
import os, sys, json, subprocess, tempfile, shutil, glob, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ORIGINAL = "7f40c44"
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"] if os.path.exists("/opt/vp/BASELINE.json") else []
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds in the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/home" "$W/numba" "$W/mpl" "$W/pyc"
export HOME="$W/home" NUMBA_CACHE_DIR="$W/numba" MPLCONFIGDIR="$W/mpl" PYTHONPYCACHEPREFIX="$W/pyc" SCRATCH="$W" PYTHONPATH="$PWD" MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export NUMBA_NUM_THREADS=$(getconf _NPROCESSORS_ONLN)
timeout 240 %s "$here/demo.py"
""" % PY


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


class Tree(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="bugwt-")
        self.t = os.path.join(self.d, "repo")
        r = sh(["git", "-C", "/repo", "worktree", "add", "-f", "--detach", self.t, "HEAD", "-q"])
        assert r.returncode == 0, r.stderr
        return self.t

    def __exit__(self, *a):
        sh(["git", "-C", "/repo", "worktree", "remove", "--force", self.t])
        shutil.rmtree(self.d, ignore_errors=True)
        sh(["git", "-C", "/repo", "worktree", "prune"])


def tests(tree):
    with tempfile.TemporaryDirectory() as w:
        for name in ("unit", "doctest"):
            for x in ("home", "numba", "pyc", "mpl"):
                os.makedirs(os.path.join(w, name, x))
        def env(name):
            e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", LC_ALL="C.UTF-8",
                     NUMBA_NUM_THREADS=os.environ.get("BUG_THREADS") or str(os.cpu_count()), OMP_WAIT_POLICY="passive")
            e.update(HOME="%s/%s/home" % (w, name), NUMBA_CACHE_DIR="%s/%s/numba" % (w, name), PYTHONPYCACHEPREFIX="%s/%s/pyc" % (w, name), MPLCONFIGDIR="%s/%s/mpl" % (w, name))
            return e
        base = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2"]
        ps = [subprocess.Popen(base + ["--junitxml=%s/%s.xml" % (w, n)] + a, cwd=tree, env=env(n), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
              for n, a in (("unit", ["cddm/test"]), ("doctest", ["--doctest-modules", "--ignore=cddm/test", "cddm"]))]
        for p in ps:
            p.wait()
        import xml.etree.ElementTree as ET
        ok = set()
        for n in ("unit", "doctest"):
            for tc in ET.parse("%s/%s.xml" % (w, n)).getroot().iter("testcase"):
                if tc.find("failure") is None and tc.find("error") is None and tc.find("skipped") is None:
                    ok.add("%s::%s" % (tc.get("classname"), tc.get("name")))
    return [t for t in STABLE if t not in ok]


def demo(bug, tree):
    with tempfile.TemporaryDirectory() as d:
        for f in os.listdir(os.path.join(SEEDED, bug)):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(SEEDED, bug, f), d)
        t0 = time.time()
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=tree)
        return r.returncode, time.time() - t0, (r.stdout + r.stderr)[-1500:]


def original_lines(bug):
    """Removed lines of the patch that are lines of the original repository."""
    n = 0
    cur = line = None
    blame = {}
    for l in open(os.path.join(SEEDED, bug, "patch.diff")):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
            out = sh(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", cur]).stdout.splitlines()
            blame[cur] = [x.lstrip("^")[:7] for x in out]
        elif l.startswith("@@"):
            line = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-"):
            n += blame[cur][line - 1].startswith(ORIGINAL[:6])
            line += 1
        elif l.startswith("+"):
            pass
        elif line is not None:
            line += 1
    return n


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(SEEDED, ns["id"])
    os.makedirs(d, exist_ok=True)
    with Tree() as t:
        for f, old, newtext in ns["edits"]:
            p = os.path.join(t, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, newtext = old.replace("\n", "\r\n"), newtext.replace("\n", "\r\n")
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, newtext))
        diff = sh(["git", "-C", t, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(ns["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    verify(ns["id"])


def verify(bug, fast=False):
    n = original_lines(bug)
    with Tree() as t:
        a = demo(bug, t)
        r = sh(["git", "-C", t, "apply", os.path.join(SEEDED, bug, "patch.diff")])
        assert r.returncode == 0, r.stderr
        b = demo(bug, t)
        bad = [] if fast else tests(t)
    ok = n > 0 and a[0] == 0 and b[0] not in (0, 124) and not bad
    print("%s %s: original lines %d, demo clean %d (%.0f s), patched %d (%.0f s), tests lost %d" % ("ok  " if ok else "BAD ", bug, n, a[0], a[1], b[0], b[1], len(bad)), flush=True)
    if not ok:
        print("clean:", a[2], "\npatched:", b[2], "\nlost:", bad[:5])
    else:
        print("    ", b[2].strip().splitlines()[-1] if b[2].strip() else "")
    return ok


def check(bug, runs=None):
    prop = json.load(open(os.path.join(SEEDED, bug, "meta.json")))["property"]
    with Tree() as t:
        assert sh(["git", "-C", t, "apply", os.path.join(SEEDED, bug, "patch.diff")]).returncode == 0
        t0 = time.time()
        r = sh(["bash", os.path.join(VERIF, "run.sh"), prop, "--tier", "quick", ], env=dict(os.environ, DST_EVIDENCE=t + "-ev", DST_REPO=t, VERIF_SEED="1", VERIF_TIER="quick"))
        hit = r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        print("%s %s by %s: rc %d, %.0f s  %s" % ("CAUGHT" if hit else "MISSED", bug, prop, r.returncode, time.time() - t0, " | ".join(lines[-3:])[:400]), flush=True)
        if not hit and r.returncode != 0:
            print(r.stdout[-800:], r.stderr[-800:])
    return hit


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        for s in args:
            new(s)
    elif cmd in ("verify", "fast"):
        for b in args or sorted(os.listdir(SEEDED)):
            verify(b, cmd == "fast")
    elif cmd == "check":
        for b in args or sorted(os.listdir(SEEDED)):
            check(b)
