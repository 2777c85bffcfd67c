"""Mutation run: python3 tools/mutate.py OUT.jsonl FILE[,CHECK,CHECK..] ... [-n per file] [-j workers] [--seed S]

Makes small syntactic changes to parce's files in scratch copies, runs the checks listed for the file, and
records which changes no check noticed although the repository's tests pass. Nothing of this is used by the checks.
"""
import warnings; warnings.simplefilter("ignore")
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, argparse

CHECKS = {
    "parce/__init__.py": "C06 C26", "parce/action.py": "C28 C02", "parce/css.py": "C22 C23", "parce/docio.py": "C21",
    "parce/document.py": "C08 C09 C10 C11 C12 C15", "parce/formatter.py": "C16 C17", "parce/indent.py": "C24",
    "parce/language.py": "C02 C28 C01", "parce/lexer.py": "C02 C01 C03", "parce/lexicon.py": "C02 C27 C01",
    "parce/mutablestring.py": "C08", "parce/query.py": "C14", "parce/regex.py": "C18 C02", "parce/registry.py": "C26",
    "parce/rule.py": "C02 C18", "parce/ruleitem.py": "C02", "parce/standardaction.py": "C28 C27", "parce/target.py": "C15 C02 C03",
    "parce/theme.py": "C23", "parce/transform.py": "C07 C19", "parce/tree.py": "C13 C15 C03", "parce/treebuilder.py": "C03 C05 C04 C06",
    "parce/treebuilderutil.py": "C03 C05 C04", "parce/util.py": "C28 C25 C27 C21 C13 C16", "parce/work.py": "C06",
    "parce/out/html.py": "C17", "parce/lang/css.py": "C22 C23 C24", "parce/lang/json.py": "C19", "parce/lang/csv.py": "C19",
    "parce/lang/ini.py": "C19", "parce/lang/numbers.py": "C20", "parce/lang/scheme.py": "C20", "parce/introspect.py": "C29", "parce/validate.py": "C29",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def regex_edits(inner):
    """Yield changed regular expressions."""
    import re
    for m in re.finditer(r"\\.|\*\?|\+|\*|(?<=[\w\])])\?|\[\^?(?:\\.|[^\]\\])+\]|\(\?[=!][^()]*\)|\|", inner):
        t = m.group()
        reps = []
        if t in ("\\b", "$", "^"):
            reps = [""]
        elif t == "*?":
            reps = ["*", "+?"]
        elif t == "*":
            reps = ["+", ""]
        elif t == "+":
            reps = ["*", ""]
        elif t == "?":
            reps = [""]
        elif t.startswith("(?="):
            reps = [""]
        elif t.startswith("(?!"):
            reps = [""]
        elif t.startswith("["):
            parts = re.findall(r"\[\^?|\\.|[^\\]-[^\]\\]|[^\\]", t)
            reps = ["".join(parts[:i] + parts[i + 1:]) for i in range(1, len(parts) - 1)]
        for r in reps:
            new = inner[:m.start()] + r + inner[m.end():]
            try:
                re.compile(new)
            except Exception:
                continue
            yield new


def mutants(src, lang=False):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, kind):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, kind, n.lineno))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
    if lang:
        cands = [n.value.elts[0] for n in ast.walk(tree) if isinstance(n, ast.Yield) and isinstance(n.value, ast.Tuple)]
        cands += [n.value for n in tree.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant)]
        for n in cands:
            for k in ast.walk(n):
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    t = seg(k)
                    import re
                    mm = re.match(r"(?s)(r?)(\"\"\"|'''|[\"'])(.*)\2$", t)
                    if mm and "f" not in mm.group(1):
                        for new in regex_edits(mm.group(3)):
                            add(k, mm.group(1) + mm.group(2) + new + mm.group(2), "regex")
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "{} {} {}".format(seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.Compare) and len(n.ops) == 2:
            for i in (0, 1):
                ops = [None, None]
                parts = [seg(n.left), seg(n.comparators[0]), seg(n.comparators[1])]
                sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
                o = [sym[type(x)] for x in n.ops]
                o[i] = CMP[type(n.ops[i])]
                add(n, "{} {} {} {} {}".format(parts[0], o[0], parts[1], o[1], parts[2]), "cmp")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + w.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [seg(v) for j, v in enumerate(n.values) if j != i]
                w2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + w2.join("(" + r + ")" for r in rest) + ")", "dropcond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + seg(n.operand) + ")", "not")
        elif isinstance(n, ast.Constant) and type(n.value) is int and n.value < 1000:
            add(n, str(n.value + 1), "int")
            if n.value > 0:
                add(n, str(n.value - 1), "int")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "bool")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.JoinedStr):
            add(n, "{} {} {}".format(seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", seg(n.right)), "arith")
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            add(n.test, "False", "iffalse")
            add(n.test, "True", "iftrue")
        elif isinstance(n, ast.Expr) and id(n) not in doc and not isinstance(n.value, ast.Constant):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant) and all(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.Delete):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, "return None", "retnone")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "nobreak")
        elif isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("reversed", "sorted", "list", "set"):
            add(n, seg(n.args[0]), "unwrap")
        elif isinstance(n, ast.Slice):
            if n.lower and n.upper:
                pass
    # dedupe
    seen, res = set(), []
    for m in out:
        k = m[:3]
        if k in seen:
            continue
        seen.add(k)
        new = b[:m[0]] + m[2].encode() + b[m[1]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        res.append((m, new.decode()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files", nargs="+")
    ap.add_argument("-n", type=int, default=60)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--skip", type=int, default=0)
    ap.add_argument("--kind", default="")
    ap.add_argument("--lines", default="")
    a = ap.parse_args()
    work = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    q = queue.Queue()
    for f in a.files:
        f, *cs = f.split(",")
        src = open("/repo/" + f, encoding="utf-8").read()
        ms = mutants(src, f.startswith('parce/lang/'))
        if a.kind:
            ms = [m for m in ms if m[0][3] in a.kind.split(',')]
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [m for m in ms if lo <= m[0][4] <= hi]
        random.Random(a.seed).shuffle(ms)
        for m in ms[a.skip:a.skip + a.n]:
            q.put((f, cs or CHECKS[f].split(), m))
    print(q.qsize(), "mutants", flush=True)
    lock = threading.Lock()
    total = {"killed": 0, "tests": 0, "survived": 0}

    def worker(i):
        base = os.path.join(work, str(i))
        os.makedirs(base)
        shutil.copytree("/verif", base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "__pycache__"))
        shutil.copytree("/repo", base + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        while True:
            try:
                f, cs, (m, new) = q.get_nowait()
            except queue.Empty:
                return
            path = base + "/repo/" + f
            orig = open(path, encoding="utf-8").read()
            open(path, "w", encoding="utf-8").write(new)
            killed = None
            try:
                for c in cs:
                    env = dict(os.environ, VP_REPO=base + "/repo", VERIF_SEED="1")
                    extra = ["--jobs", "2"]
                    if "@" in c:        # C30@names@scale
                        c, env["VP_LANGS"], scale = c.split("@")
                        extra = ["--jobs", "1", "--scale", scale]
                    r = subprocess.run(["timeout", "600", "python3-vt", "run.py", c] + extra, cwd=base + "/verif", env=env, capture_output=True, text=True)
                    if r.returncode != 0:
                        killed = c, r.returncode, (r.stdout.strip().splitlines() or [""])[0][:200]
                        break
                status = "killed"
                if not killed:
                    r = subprocess.run(["timeout", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                                       cwd=base + "/repo", env=dict(os.environ, PYTHONPATH=base + "/repo", PYTHONDONTWRITEBYTECODE="1"), capture_output=True)
                    status = "survived" if r.returncode == 0 else "tests"
            finally:
                open(path, "w", encoding="utf-8").write(orig)
            with lock:
                total[status] += 1
                rec = {"file": f, "line": m[4], "kind": m[3], "old": orig.encode()[m[0]:m[1]].decode()[:300], "new": m[2][:300], "status": status, "by": killed}
                with open(a.out, "a") as o:
                    o.write(json.dumps(rec) + "\n")
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(work)
    print(total)


main()
