"""Mutation sweep: random small changes to synthpix, each in a scratch copy, run against the checks of the parts they touch.

usage: mutate.py SEED COUNT LOG [file-substring]     (development tool; no check uses it)
Survivors are listed in LOG with their diff: either equivalent, or something a check should learn."""
import ast, difflib, os, random, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "scheduler/base.py": "D01 D02 D03 E01 M01", "scheduler/hdf5.py": "D04 D01 Q01 D03 V03", "scheduler/mat.py": "D04 D05 D03 Q01 V03 E01", "scheduler/numpy.py": "D04 D01 D03 Q01 V03", "scheduler/episodic.py": "E01 E02 P02 V03 R01",
    "scheduler/prefetch.py": "P01 P02 P03 P04 V03 E02", "sampler/base.py": "S04 E02 S01 M01 V03", "sampler/real.py": "S01 S04 E02 M01 V03", "sampler/synthetic.py": "S01 S02 F01 S04 V03 M01 S03 G08 R01 R02 G06",
    "make.py": "M01 R01 V03", "types.py": "V01 V02 V03", "utils.py": "A01 F01 E01 G07 G05 K01 V03 M01", "data_generate.py": "G02 G03 G04 G05 G08 V03", "generate.py": "G02 G03 G05 V03 G04", "apply.py": "A01 A02 A03 G01 V03",
    "sanity.py": "K01 K02 C01",
}


class Sites(ast.NodeVisitor):
    """(kind, node, replacement source) for every mutation site."""

    def __init__(self, src):
        self.src, self.out, self.skip = src, [], 0

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def add(self, n, new, kind):
        self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, kind))

    def visit_Call(self, n):
        f = self.seg(n.func)
        if f and (f.startswith("logger") or f in ("print", "warnings.warn") or "TypeVar" in f):
            return
        if f in ("jnp.clip", "np.clip", "jnp.maximum", "jnp.minimum", "max", "min", "jnp.abs", "abs", "jnp.round", "jnp.floor", "jnp.ceil", "sorted", "float", "int", "jnp.flip", "jnp.transpose", "np.transpose") and n.args:
            self.add(n, "(" + self.seg(n.args[0]) + ")", "drop " + f)
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and f not in ("isinstance", "getattr", "hasattr", "setattr"):
            a, b = n.args[0], n.args[1]
            t = self.src.splitlines(True)
            if a.lineno == b.end_lineno and self.seg(a) != self.seg(b):
                self.out.append((a.lineno, a.col_offset, b.end_lineno, b.end_col_offset, self.seg(b) + ", " + self.seg(a), "swap args of " + f))
        self.generic_visit(n)

    def visit_Raise(self, n):
        return

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            o = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}.get(type(n.ops[0]))
            if o:
                for x in o:
                    self.add(n, f"({self.seg(n.left)} {x} {self.seg(n.comparators[0])})", "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        o = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/", "%"], ast.Mod: ["//"], ast.Pow: ["*"]}.get(type(n.op))
        if o and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
            for x in o:
                self.add(n, f"({self.seg(n.left)} {x} {self.seg(n.right)})", "arith")
            if isinstance(n.right, ast.Constant) or isinstance(n.left, ast.Constant):
                self.add(n, f"({self.seg(n.left if not isinstance(n.left, ast.Constant) else n.right)})", "drop operand")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        x = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + x.join("(" + self.seg(v) + ")" for v in n.values) + ")", "bool")
        for k in range(len(n.values)):
            self.add(n, "(" + (" and " if x == " or " else " or ").join("(" + self.seg(v) + ")" for j, v in enumerate(n.values) if j != k) + ")", "drop condition")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, "(" + self.seg(n.operand) + ")", "drop unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "flag")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "constant")
            if v:
                self.add(n, f"{v - 1}", "constant")
        elif isinstance(v, float):
            self.add(n, str(v * 2 if v else 1.0), "constant")

    def visit_Attribute(self, n):
        sw = {"images1": "images2", "images2": "images1", "max_speed_x": "max_speed_y", "max_speed_y": "max_speed_x", "min_speed_x": "min_speed_y", "min_speed_y": "min_speed_x", "p_hide_img1": "p_hide_img2", "p_hide_img2": "p_hide_img1", "floor": "ceil", "ceil": "floor", "maximum": "minimum", "minimum": "maximum"}
        if n.attr in sw and isinstance(n.ctx, ast.Load):
            self.add(n, self.seg(n.value) + "." + sw[n.attr], "attribute")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, f"not ({self.seg(n.test)})", "negate")
        if not any(isinstance(x, ast.Raise) for x in n.body):
            self.add(n.test, "False", "never")
            self.add(n.test, "True", "always")
        else:
            self.add(n.test, "False", "no refusal")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and (self.seg(n.value.func) or "").startswith(("logger", "print")):
            return
        self.add(n, "pass", "delete call")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            self.add(n, "pass", "delete assignment")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delete assignment")
        o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/="}.get(type(n.op))
        if o:
            self.add(n, f"{self.seg(n.target)} {o} {self.seg(n.value)}", "arith")
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ("main", "__repr__", "__str__"):
            return
        for b in n.body:
            self.visit(b)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)

    def visit_Import(self, n):
        return
    visit_ImportFrom = visit_Import

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)


def edit(src, site):
    l1, c1, l2, c2, new, _ = site
    lines = src.splitlines(True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()
    return (b[:off[l1 - 1] + c1] + new.encode() + b[off[l2 - 1] + c2:]).decode()


def main():
    seed, count, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    rng = random.Random(seed)
    repo = os.environ.get("MUTATE_REPO", "/repo")
    sites = []
    for rel in CHECKS:
        if only and only not in rel:
            continue
        src = open(f"{repo}/src/synthpix/{rel}").read()
        s = Sites(src)
        s.visit(ast.parse(src))
        sites += [(rel, x) for x in sorted(set(s.out))]
    byfile = {}
    for rel, x in sites:
        byfile.setdefault(rel, []).append(x)
    done = set()
    print(len(sites), "sites", flush=True)
    while len(done) < min(count, len(sites)):
        rel = rng.choice(sorted(byfile, key=lambda r: r)) if rng.random() < .4 else rng.choice(sites)[0]
        x = rng.choice(byfile[rel])
        if (rel, x) in done:
            continue
        done.add((rel, x))
        src = open(f"{repo}/src/synthpix/{rel}").read()
        try:
            new = edit(src, x)
            ast.parse(new)
        except SyntaxError:
            continue
        if new == src:
            continue
        d = tempfile.mkdtemp(prefix="mut_")
        try:
            shutil.copytree(f"{repo}/src", d + "/src")
            if os.path.isdir(f"{repo}/scripts"):
                shutil.copytree(f"{repo}/scripts", d + "/scripts")
            open(f"{d}/src/synthpix/{rel}", "w").write(new)
            diff = "".join(l for l in difflib.unified_diff(src.splitlines(True), new.splitlines(True), rel, rel, n=1) if not l.startswith("---"))
            verdict = []
            for c in CHECKS[rel].split():
                try:
                    p = subprocess.run([V + "/run", c, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_FAILFAST="1"), capture_output=True, text=True, timeout=890)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                verdict.append(f"{c}:{rc}")
                if rc == 1:
                    break
            killed = verdict[-1].endswith(":1")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with open(log, "a") as f:
            f.write(f"{'killed  ' if killed else 'SURVIVED'} {rel}:{x[0]} [{x[5]}] {' '.join(verdict)}\n")
            if not killed:
                f.write(diff + "\n")


main()
