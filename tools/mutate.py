"""Systematic mutation: which small changes of the package does no check notice?

mutate.py list FILE...            -> number of mutants per file
mutate.py run OUT.jsonl SEED N [FILE-regex [FUNCTION-regex]]   -> runs N random mutants against the checks that encode their function

Each mutant is made in a scratch copy; a check is run through VERIF_REPO.  Mutants no check notices are
for reading: they are either equivalent, outside the properties, or a gap."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/pterasoftware"
SLOW = ("P22", "P17", "P16")
FILES = sorted(f for f in os.listdir(PKG) if f.endswith(".py") and f not in ("__init__.py",))
SWAPS = [("right", "left"), ("front", "back"), ("inner", "outer"), ("x_", "y_"), ("y_", "z_"), ("root", "tip"), ("chordwise", "spanwise"),
         ("leading", "trailing"), ("upper", "lower"), ("last", "these"), ("forces", "moments"), ("origin", "termination"), ("x_le", "z_le"), ("min", "max"), ("mean", "rms"),
         ("first", "last"), ("sin", "cos"), ("sweeping", "heaving"), ("sweeping", "pitching"), ("amplitude", "period"), ("s_ref", "c_ref"), ("b_ref", "c_ref"), ("alpha", "beta"),
         ("force", "moment"), ("current", "last"), ("next", "this")]


class Sites(ast.NodeVisitor):
    def __init__(self, src, idents):
        self.src, self.out, self.fn, self.idents = src, [], [], idents
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, kind, n, new):
        a, b = self.span(n)
        old = self.b[a:b].decode()
        if old != new:
            self.out.append((kind, ".".join(self.fn), n.lineno, a, b, old, new))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.body:
            if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant):
                continue
            self.visit(d)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for d in n.body:
            self.visit(d)
        self.fn.pop()

    def generic_visit(self, n):
        if self.fn and isinstance(n, ast.stmt):
            self.stmt(n)
        if self.fn:
            self.expr(n)
        super().generic_visit(n)

    def stmt(self, n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = self.text(n.value)
            if "logging" in t or "logger" in t or t.startswith("print") or "plotter.show" in t:
                return
            self.add("delete call", n, "pass")
        elif isinstance(n, ast.AugAssign):
            self.add("delete", n, "pass")
            ops = {ast.Add: ("+=", "-="), ast.Sub: ("-=", "+="), ast.Mult: ("*=", "/="), ast.Div: ("/=", "*=")}
            if type(n.op) in ops:
                a, b = ops[type(n.op)]
                self.add("augop", n, self.text(n).replace(a, b, 1))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add("delete assignment", n, "pass")
        elif isinstance(n, ast.If):
            self.add("negate", n.test, "not (" + self.text(n.test) + ")")

    def expr(self, n):
        if isinstance(n, ast.BinOp):
            l, r = self.text(n.left), self.text(n.right)
            mid = self.b[self.span(n.left)[1]:self.span(n.right)[0]].decode()
            swap = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*")}
            if type(n.op) in swap:
                a, b = swap[type(n.op)]
                if mid.count(a):
                    self.add("binop", n, l + mid.replace(a, b, 1) + r)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            self.add("sign", n, self.text(n.operand))
        elif isinstance(n, ast.BoolOp):
            a, b = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            mid = self.b[self.span(n.values[0])[1]:self.span(n.values[1])[0]].decode()
            t = self.text(n)
            self.add("boolop", n, t.replace(mid, mid.replace(a, b, 1), 1))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            m = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
            for o in m.get(type(n.ops[0]), []):
                self.add("compare", n, "%s %s %s" % (l, o, r))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            self.add("bool", n, str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            self.add("int", n, str(n.value + 1))
            if n.value > 0:
                self.add("int", n, str(n.value - 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            self.add("float", n, repr(n.value * 1.25 if n.value else 0.1))
        elif isinstance(n, ast.Call):
            t = self.text(n)
            if len(n.args) >= 2 and not t.startswith(("range", "print", "isinstance", "logg")):
                a, b = n.args[0], n.args[1]
                if not isinstance(a, ast.Starred) and not isinstance(b, ast.Starred):
                    s0 = self.span(n)[0]
                    (a0, a1), (b0, b1) = self.span(a), self.span(b)
                    tb = self.b
                    self.add("swap arguments", n, (tb[s0:a0] + tb[b0:b1] + tb[a1:b0] + tb[a0:a1] + tb[b1:self.span(n)[1]]).decode())
        elif isinstance(n, ast.Slice):
            pass
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
            name = n.attr if isinstance(n, ast.Attribute) else n.id
            for p, q in SWAPS:
                for u, v in ((p, q), (q, p)):
                    if u in name:
                        new = name.replace(u, v)
                        if new in self.idents and new != name:
                            if isinstance(n, ast.Attribute):
                                self.add("swap name", n, self.text(n)[:-len(name)] + new)
                            else:
                                self.add("swap name", n, new)


def sites(f):
    src = open(os.path.join(PKG, f)).read()
    idents = set(re.findall(r"[A-Za-z_]\w*", src))
    v = Sites(src, idents)
    v.visit(ast.parse(src))
    seen, out = set(), []
    for s in v.out:
        if s[3:] not in seen:
            seen.add(s[3:])
            out.append((f,) + s)
    return out


def relevant():
    """function -> checks whose evidence says they encode it, fastest first."""
    out, wall = {}, {}
    for e in os.listdir(ROOT + "/evidence"):
        if re.match(r"P\d\d\.json$", e):
            d = json.load(open(ROOT + "/evidence/" + e))
            wall[d["property"]] = d["wall_s"]
            for fn in d["coverage"]["functions_encoded"]:
                out.setdefault(fn.replace("<locals>.", ""), set()).add(d["property"])
    return {k: sorted(v, key=lambda p: wall[p]) for k, v in out.items()}


def run(site, rel):
    f, kind, fn, line, a, b, old, new = site
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(PKG, d + "/pterasoftware", ignore=shutil.ignore_patterns("ui_resources", "__pycache__"))
        p = d + "/pterasoftware/" + f
        src = open(p, "rb").read()
        s = src[:a] + new.encode() + src[b:]
        try:
            compile(s, p, "exec")
        except SyntaxError:
            return None
        open(p, "wb").write(s)
        pids = rel.get(f + ":" + fn, [])
        pids = [x for x in pids if x not in SLOW] + [x for x in pids if x in SLOW and os.environ.get("MUT_SLOW")]
        res = []
        for pid in pids:
            try:
                r = subprocess.run(["python3-vt", "engine/check.py", pid], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"),
                                   capture_output=True, text=True, timeout=900)
                rc = r.returncode
                out = r.stdout
            except subprocess.TimeoutExpired:
                rc, out = "timeout", ""
            und = "INCONCLUSIVE" in out
            res.append((pid, rc, "undecided" if und else ""))
            if rc == 1:
                break
        return dict(file=f, kind=kind, fn=fn, line=line, old=old[:300], new=new[:300], checks=res, killed=any(x[1] == 1 for x in res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or FILES:
            print(f, len(sites(f)))
        return
    out, seed, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    fre = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
    nre = re.compile(sys.argv[6] if len(sys.argv) > 6 else ".")
    rel = relevant()
    todo = [s for f in FILES if fre.search(f) for s in sites(f) if nre.search(s[2])]
    random.Random(seed).shuffle(todo)
    todo = todo[:n]
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "3"))) as ex, open(out, "a") as o:
        for r in ex.map(lambda s: run(s, rel), todo):
            if r:
                o.write(json.dumps(r) + "\n")
                o.flush()


main()
