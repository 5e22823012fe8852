"""Mutation campaign (a self-test of the checks, not a check):
   python3 tools/mutate.py FILE N SEED OUT.jsonl [--slot K] [--workers W] [--frac F]

Makes N random mutants of cddm/FILE in a scratch copy, runs the checks that cover the file
until one reports a violation; survivors are run through the test suite.  Results: one
json line per mutant (line, change, killed_by | tests | survived)."""
import ast, sys, os, json, random, subprocess, shutil, time, argparse
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
CHECKS = {
    "video.py": "C01 C02 C03 C04 C11 C18 C17 C16",
    "viewer.py": "C13 C19",
    "multitau.py": "C05 C06 C08 C07 C15 C09 C14 C17 C19",
    "core.py": "C05 C20 C08 C07 C15 C14 C17",
    "norm.py": "C17 C19",
    "map.py": "C17 C19",
    "fft.py": "C18 C17",
    "window.py": "C17 C18",
    "sim.py": "C10 C16",
    "print_tools.py": "C14 C08 C09",
    "conf.py": "C12 C14 C18",
    "avg.py": "C17 C19",
    "decorators.py": "C17 C19",
    "_core_nb.py": "C20 C05 C06 C07 C17",
    "_sim_nb.py": "C16 C10",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.Pow: ["*"]}
import re


def candidates(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    doc = set()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip.update(id(x) for x in ast.walk(d))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
    out = []

    def add(n, new, kind):
        s, e = span(n)
        old = b[s:e].decode()
        if old != new:
            out.append((n.lineno, s, e, old, new, kind))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                add(n, "(%s %s %s)" % (seg(n.left), o, seg(n.right)), "bin")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.Constant):
            if n.value is True:
                add(n, "False", "const")
            elif n.value is False:
                add(n, "True", "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.5 + 0.01), "const")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "conj") and n.lineno == n.end_lineno:
                add(n, "(%s)" % seg(n.func.value), "call")
            for k in n.keywords:
                if k.arg and not isinstance(k.value, ast.Constant):
                    add(k.value, "None", "kw")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            m = re.match(r"(.*)([12])(\D*)$", n.id)
            if m:
                add(n, m.group(1) + ("2" if m.group(2) == "1" else "1") + m.group(3), "swap")
            elif n.id in ("min", "max"):
                add(n, "max" if n.id == "min" else "min", "swap")
            elif n.id in ("height", "width", "kimax", "kjmax"):
                add(n, {"height": "width", "width": "height", "kimax": "kjmax", "kjmax": "kimax"}[n.id], "swap")
    seen = set()
    res = []
    for c in out:
        if c[1:5] not in seen:
            seen.add(c[1:5])
            res.append(c)
    return res


def apply(src, c):
    b = src.encode()
    return (b[:c[1]] + c[4].encode() + b[c[2]:]).decode()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("n", type=int)
    ap.add_argument("seed", type=int)
    ap.add_argument("out")
    ap.add_argument("--slot", default="0")
    ap.add_argument("--workers", default="4")
    ap.add_argument("--frac", type=float, default=0.5)
    ap.add_argument("--lines")
    ap.add_argument("--checks")
    a = ap.parse_args()
    base = "/tmp/mut-%s" % a.slot
    repo = base + "/repo"
    if not os.path.exists(repo):
        os.makedirs(base)
        subprocess.check_call(["cp", "-a", "/repo", repo])
    path = os.path.join(repo, "cddm", a.file)
    orig = os.path.join("/repo/cddm", a.file)
    src = open(orig).read()
    cand = candidates(src)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        cand = [c for c in cand if lo <= c[0] <= hi]
    rnd = random.Random(a.seed)
    rnd.shuffle(cand)
    env = dict(os.environ, DST_REPO=repo, DST_EVIDENCE=base + "/ev", DST_NUMBA_CACHE=base + "/nb")
    if a.file.endswith("_nb.py"):
        del env["DST_NUMBA_CACHE"]
    os.makedirs(base + "/ev", exist_ok=True)
    import bug
    from importlib import import_module
    sys.path.insert(0, VERIF)
    tested = 0
    print(len(cand), "candidates")
    for c in cand:
        if tested >= a.n:
            break
        new = apply(src, c)
        try:
            compile(new, a.file, "exec")
        except SyntaxError:
            continue
        tested += 1
        open(path, "w").write(new)
        t0 = time.time()
        rec = {"file": a.file, "line": c[0], "kind": c[5], "old": c[3][:200], "new": c[4][:200]}
        killed = None
        for chk in (a.checks or CHECKS[a.file]).split():
            runs = RUNS[chk]
            try:
                r = subprocess.run(["bash", os.path.join(VERIF, "run.sh"), chk, "--runs", str(max(50, int(runs * a.frac))), "--workers", a.workers, "--no-minimise"],
                               env=env, capture_output=True, text=True, timeout=600, start_new_session=True)
            except subprocess.TimeoutExpired:
                killed = chk + ":timeout"
                break
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                killed = chk
                break
            if r.returncode != 0:
                killed = chk + ":rc%d" % r.returncode
                rec["tail"] = (r.stdout + r.stderr)[-300:]
                break
        rec["killed"] = killed
        if killed is None:
            lost = bug.tests(repo)
            rec["tests"] = lost[:3]
            rec["result"] = "tests" if lost else "SURVIVED"
        else:
            rec["result"] = "killed"
        rec["s"] = round(time.time() - t0)
        with open(a.out, "a") as f:
            f.write(json.dumps(rec) + "\n")
        shutil.copy2(orig, path)


def runs_of():
    out = {}
    for i in range(1, 21):
        t = open(os.path.join(VERIF, "dst/checks/c%02d.py" % i)).read() if os.path.exists(os.path.join(VERIF, "dst/checks/c%02d.py" % i)) else ""
        m = re.search(r'RUNS = \{"quick": (\d+)', t)
        out["C%02d" % i] = int(m.group(1)) if m else 3000
    return out


RUNS = runs_of()
if __name__ == "__main__":
    main()
