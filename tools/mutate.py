"""Development aid: single-edit mutants of one source file, run through the checks of the
properties anchored there; prints the mutants that no check notices.

  python tools/mutate.py qetpy/core/_fitting.py C01,C02,... [--lines a-b] [--jobs 6] [--sample p] [--out file]

Works on scratch copies under /tmp; never touches /repo.  No registered check uses it.
"""
import ast, sys, os, subprocess, shutil, random, argparse, tempfile, copy, json
from concurrent.futures import ThreadPoolExecutor
import queue

ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("checks")
ap.add_argument("--lines"); ap.add_argument("--jobs", type=int, default=6)
ap.add_argument("--sample", type=float, default=1.0); ap.add_argument("--out"); ap.add_argument("--seed", type=int, default=0)
ap.add_argument("--timeout", type=float, default=300)
A = ap.parse_args()
src = open("/repo/" + A.file).read()
tree = ast.parse(src)
lines = src.split("\n")
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
bsrc = src.encode()
lo, hi = (map(int, A.lines.split("-")) if A.lines else (1, len(lines)))


def seg(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


muts = []


def add(n, new, what, a=None, b=None):
    x, y = seg(n) if a is None else (a, b)
    old = bsrc[x:y].decode()
    if old != new:
        muts.append((n.lineno, x, y, new, what, old))


def txt(n):
    x, y = seg(n); return bsrc[x:y].decode()


BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*"}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
FN = {"argmin": "argmax", "argmax": "argmin", "min": "max", "max": "min", "amax": "amin", "amin": "amax", "real": "imag", "imag": "real",
      "mean": "median", "fft": "ifft", "ifft": "fft", "cos": "sin", "sin": "cos", "abs": "asarray", "zeros": "ones", "ones": "zeros",
      "conjugate": "copy", "conj": "asarray", "logical_and": "logical_or", "logical_or": "logical_and", "sqrt": "asarray", "all": "any", "any": "all"}
doc = set()
for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
        doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
skip = set()
for n in ast.walk(tree):
    if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr) or isinstance(n, ast.Call) and txt(n.func) in ("print", "warnings.warn", "IOError"):
        for c in ast.walk(n):
            if c is not n: skip.add(id(c))
    if isinstance(n, ast.FunctionDef):
        for d in n.args.defaults: 
            if isinstance(d, ast.Constant) and n.name.startswith("_"): skip.add(id(d))
for n in ast.walk(tree):
    if id(n) in skip or not hasattr(n, "lineno") or id(n) in doc or not lo <= n.lineno <= hi:
        continue
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        l, r = txt(n.left), txt(n.right)
        x = seg(n.left)[1]; y = seg(n.right)[0]
        mid = bsrc[x:y].decode(); s = SYM[type(n.op)]
        i = mid.find(s)
        if i >= 0:
            muts.append((n.lineno, x, y, mid[:i] + BIN[type(n.op)] + mid[i + len(s):], "op", mid))
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
        x = seg(n.left)[1]; y = seg(n.comparators[0])[0]
        for o in CMP[type(n.ops[0])]:
            mid = bsrc[x:y].decode()
            muts.append((n.lineno, x, y, ") ".count(")") * "" + (mid[:len(mid) - len(mid.lstrip(") \n"))] if ")" in mid else " ") + o + " " + ("(" * mid.count("(")), "cmp", mid))
    elif isinstance(n, ast.BoolOp):
        add(n, txt(n.values[0]), "bool-first"); add(n, txt(n.values[-1]), "bool-last")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
        add(n, "(" + txt(n.operand) + ")", "unary")
    elif isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            add(n, str(not n.value), "const")
        elif isinstance(n.value, int):
            add(n, str(n.value + 1), "const"); n.value and add(n, str(n.value - 1), "const")
        elif isinstance(n.value, float):
            add(n, repr(n.value * 1.5 if n.value else 1.0), "const")
    elif isinstance(n, (ast.If, ast.IfExp)):
        add(n.test, "True", "if"); add(n.test, "False", "if")
    elif isinstance(n, ast.Attribute) and n.attr in FN:
        x, y = seg(n); b = y - len(n.attr)
        muts.append((n.end_lineno, b, y, FN[n.attr], "fn", n.attr))
    elif isinstance(n, ast.Name) and n.id in FN and isinstance(n.ctx, ast.Load):
        if n.id in ("fft", "ifft", "min", "max"):
            add(n, FN[n.id], "fn")
    elif isinstance(n, ast.Call):
        for k in n.keywords:
            if k.arg:
                x = off[k.lineno - 1] + k.col_offset; y = off[k.end_lineno - 1] + k.end_col_offset
                z = y
                while z < len(bsrc) and bsrc[z:z + 1] in b" \n": z += 1
                if bsrc[z:z + 1] == b",": y = z + 1
                muts.append((k.lineno, x, y, "", "kwarg", bsrc[x:y].decode()))
    elif isinstance(n, ast.Slice):
        if n.lower is not None: add(n.lower, "", "slice")
        if n.upper is not None: add(n.upper, "", "slice")
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and id(n) not in doc and not (
            isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        if isinstance(n, ast.AugAssign):
            add(n, "pass", "del")
        elif isinstance(n, ast.Assign):
            if not isinstance(n.targets[0], ast.Name): add(n, "pass", "del")
        else:
            add(n, "pass", "del")
seen = set(); m2 = []
for m in sorted(muts):
    if (m[1], m[2], m[3]) in seen: continue
    seen.add((m[1], m[2], m[3])); m2.append(m)
random.seed(A.seed)
if A.sample < 1: m2 = [m for m in m2 if random.random() < A.sample]
ok = []
for m in m2:
    new = bsrc[:m[1]] + m[3].encode() + bsrc[m[2]:]
    try: compile(new, "x", "exec")
    except Exception: continue
    ok.append((m, new))
print(f"{A.file}: {len(ok)} mutants", flush=True)
ws = queue.Queue()
base = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
for j in range(A.jobs):
    w = f"{base}/w{j}"; os.makedirs(w); shutil.copytree("/repo/qetpy", w + "/qetpy", ignore=shutil.ignore_patterns("__pycache__")); ws.put(w)
checks = A.checks.split(",")
out = open(A.out, "w") if A.out else None


def run(item):
    m, new = item
    w = ws.get()
    try:
        p = f"{w}/{A.file}"
        open(p, "wb").write(new)
        res = "SURVIVED"
        env = dict(os.environ, QPMON_REPO=w, QPMON_FAILFAST="1", QPMON_PROCS=os.environ.get("QPMON_PROCS", "2"), QPMON_EVIDENCE=w + "/ev", PYTHONWARNINGS="ignore")
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; PYTHONPATH=%s python -W ignore -c 'import qetpy'" % w], env=env, capture_output=True)
        if r.returncode: return m, "import"
        for c in checks:
            try:
                r = subprocess.run(["/verif/check", c, "quick", "--seed", "1"], env=env, capture_output=True, text=True, timeout=A.timeout)
            except subprocess.TimeoutExpired:
                res = c + ":timeout"; break
            if r.returncode == 1: res = c; break
            if r.returncode: res = c + f":rc{r.returncode}"; break
        return m, res
    finally:
        open(f"{w}/{A.file}", "w").write(src)
        ws.put(w)


n = dict(k=0, s=0)
with ThreadPoolExecutor(A.jobs) as ex:
    for m, res in ex.map(run, ok):
        n["k"] += 1
        if res == "SURVIVED" or ":" in res:
            n["s"] += 1
            s = f"{res} L{m[0]} {m[4]}: `{m[5]}` -> `{m[3]}`   | {lines[m[0] - 1].strip()[:110]}"
            print(s, flush=True)
            if out: out.write(s + "\n"); out.flush()
print(f"{n['k']} mutants, {n['s']} not noticed", flush=True)
shutil.rmtree(base)
