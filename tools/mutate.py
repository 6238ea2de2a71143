"""Looks for gaps: small random edits of eribean/GIRTH which its own tests do not notice, run against the checks (never used by a check).

    mutate.py sample N SEED OUT.json       edits of /repo's sources, at most N, evenly over the files
    mutate.py tests OUT.json               drops the edits which the stable tests notice
    mutate.py checks OUT.json              runs the checks of the edited file on the others
Everything happens in private mount namespaces over /repo and /verif.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
CHECKS = [("common/cronbach", ["S01", "D05"]), ("common/entropy", ["F02"]), ("common/hypersphere", ["F02"]), ("common/polychoric", ["P01", "P02", "D05"]),
          ("common/polyserial", ["P02", "D05"]), ("common/procrustes", ["F02"]), ("common/reverse", ["D01"]),
          ("multidimensional_ability", ["A01", "A02", "A03", "E05", "D06", "D04"]), ("multidimensional_initial", ["E01", "E10", "D04", "D05", "E02", "E05", "D06"]),
          ("multidimensional_mml", ["E10", "E01", "E02", "E05", "D04", "D06", "E03", "D05", "M01"]), ("partial_integral_md", ["A01", "E10"]),
          ("dichotomous/ability_estimation", ["A01", "A02", "A03", "E05", "D04", "D06", "D05"]), ("ability_threepl", ["A01", "A02", "A03", "E05", "D04", "D06"]),
          ("jml_methods", ["E09", "E04", "E01", "E02", "E05", "D04", "D06", "D05"]), ("dichotomous/partial", ["A01", "E07", "E10", "E05", "M01"]),
          ("rasch_conditional", ["E07", "E01", "E02", "D04", "D06", "E04", "D05"]), ("rasch_mml", ["E07", "M01", "E06", "L02", "E01", "E05", "D04", "D06", "E10"]),
          ("threepl_mml", ["M01", "E01", "E10", "E02", "E05", "D04", "D06", "D05"]), ("twopl_mml_eap", ["M01", "E07", "E10", "E06", "E05", "D04", "E04", "D06"]),
          ("twopl_mml", ["E07", "M01", "E10", "E05", "D04"]), ("ability_estimation_poly", ["E09", "E05", "D06"]), ("grm_jml", ["E09", "E03", "E05", "E10", "D04", "D06", "E04"]),
          ("grm_mml_eap", ["M01", "E08", "E10", "E03", "E06", "E05", "D04", "D06", "E04"]), ("grm_mml", ["E08", "M01", "E10", "E07", "E03", "E06", "E05", "D04", "L01", "D06", "E04"]),
          ("gum_mml", ["M01", "E10", "E03", "E05", "D04", "D06", "E01", "E02"]), ("partial_integrals_poly", ["E08", "E10", "E09", "M01"]),
          ("pcm_jml", ["E09", "E03", "E05", "E10", "D04", "D06", "E04"]), ("pcm_mml", ["E08", "E10", "E03", "E04", "E05", "D04", "D06", "M01"]),
          ("bootstrap", ["B01", "D04", "D05"]), ("ctt_", ["S01", "D05"]), ("girth_options", ["D04", "D05"]), ("latent_ability", ["L01", "E10", "D05", "D04"]),
          ("look_up", ["L02", "E07"]), ("polytomous_utils", ["D02", "E08", "E10", "L02", "D05"]), ("utilities/utils", ["D01", "D03", "L02", "D05", "E10", "E07", "A01", "D04"]),
          ("factoranalysis/rotation", ["F02", "D05"]), ("factoranalysis", ["F01", "D05"]), ("synthetic", ["S02", "D05", "D06"])]
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*"}


def edits(path):
    src = open(f"{R}/{path}").read()
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda ln, col: off[ln - 1] + col
    doc = set()
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            yield a, b, " " + SWAP[type(n.ops[0])] + " ", "compare"
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            mid = src[a:b]
            if "(" in mid or ")" in mid or "\n" in mid:
                continue
            yield a, b, " " + ARITH[type(n.op)] + " ", "arith"
        elif isinstance(n, ast.AugAssign) and type(n.op) in ARITH:
            a, b = pos(n.target.end_lineno, n.target.end_col_offset), pos(n.value.lineno, n.value.col_offset)
            if "(" not in src[a:b]:
                yield a, b, " " + ARITH[type(n.op)] + "= ", "arith"
        elif isinstance(n, ast.Constant) and n not in doc:
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            if isinstance(n.value, bool):
                yield a, b, str(not n.value), "bool"
            elif isinstance(n.value, int):
                yield a, b, str(n.value + 1), "const"
                if n.value > 0:
                    yield a, b, str(n.value - 1), "const"
            elif isinstance(n.value, float):
                yield a, b, repr(n.value * 1.3 if n.value else .1), "const"
                yield a, b, repr(n.value * 30 if n.value else .1), "const"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            a, b = pos(n.lineno, n.col_offset), pos(n.operand.lineno, n.operand.col_offset)
            yield a, b, "", "unary"
        elif isinstance(n, (ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            yield a, b, "pass", "delete"
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            yield a, b, "pass", "delete"
        elif isinstance(n, ast.If):
            a, b = pos(n.test.lineno, n.test.col_offset), pos(n.test.end_lineno, n.test.end_col_offset)
            yield a, b, "False", "if"
            yield a, b, "True", "if"
        elif isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg in ("dtype", "axis", "ddof", "keepdims", "copy", "order"):
                    a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    while src[a - 1] in " \n":
                        a -= 1
                    if src[a - 1] == ",":
                        yield a - 1, b, "", "keyword"
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ("min", "max"):
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            yield a, b, {"min": "max", "max": "min"}[n.id], "name"
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            a, b = pos(n.func.value.end_lineno, n.func.value.end_col_offset), pos(n.end_lineno, n.end_col_offset)
            yield a, b, "", "copy"


def sample(n, seed, out):
    rng = random.Random(seed)
    files = [f for f in subprocess.run(["git", "-C", R, "ls-files"], capture_output=True, text=True).stdout.split() if f.endswith(".py") and "test" not in f and not f.endswith("__init__.py") and f != "setup.py"]
    per = {f: list(edits(f)) for f in files}
    total = sum(map(len, per.values()))
    res = []
    for f, e in per.items():
        src = open(f"{R}/{f}").read()
        rng.shuffle(e)
        for a, b, new, kind in e[:max(2, round(n * len(e) / total))]:
            t = src[:a] + new + src[b:]
            try:
                ast.parse(t)
            except SyntaxError:
                continue
            ln = src[:a].count("\n") + 1
            res.append(dict(file=f, line=ln, kind=kind, a=a, b=b, new=new, old=src[a:b], text=src.split("\n")[ln - 1].strip()))
    print(total, "possible,", len(res), "taken")
    json.dump(res, open(out, "w"), indent=0)


def space(m, cmds):
    d = tempfile.mkdtemp(dir="/tmp/w")
    shutil.copytree(R, d + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    p = f"{d}/r/{m['file']}"
    s = open(p).read()
    assert s[m["a"]:m["b"]] == m["old"]
    open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])
    if cmds[0] == "checks":
        shutil.copytree(V, d + "/v", symlinks=True, ignore=shutil.ignore_patterns(".git", "replays", "evidence", "seeded"))
        for q in ("replays", "evidence"):
            os.makedirs(d + "/v/" + q)
    res = []
    for c in cmds[1]:
        ns = f"mount --bind {d}/r /repo; " + (f"mount --bind {d}/v /verif; " if cmds[0] == "checks" else "") + "cd /repo; . /opt/vp/env.sh; export OMP_NUM_THREADS=1; "
        try:
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", ns + c], capture_output=True, text=True, timeout=900)
            res.append((c, r.returncode, r.stdout[-1500:]))
            if r.returncode != 0:
                break
        except subprocess.TimeoutExpired:
            res.append((c, 124, ""))
            break
    shutil.rmtree(d)
    return res


def tests(out):
    ms = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    known = ["test_pcm_jml_mml"]
    failing = json.load(open("/tmp/w/failing.json"))
    desel = " ".join("--deselect '%s'" % f for f in failing)

    def one(m):
        if "tests" not in m:
            r = space(m, ("tests", [f"/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=120 {desel}"]))
            m["tests"] = r[-1][1]
        return m
    with ThreadPoolExecutor(8) as ex:
        for k, m in enumerate(ex.map(one, ms)):
            if k % 40 == 39:
                print(k + 1, sum(q.get("tests") == 0 for q in ms), flush=True)
    json.dump(ms, open(out, "w"), indent=0)
    print("survive:", sum(m["tests"] == 0 for m in ms), "of", len(ms))


def checks(out):
    ms = json.load(open(out))

    def one(m):
        if m.get("tests") == 0 and "checks" not in m:
            ids = next(v for k, v in CHECKS if k in m["file"])
            ids = [i for i in ids if os.path.exists(f"{V}/checks/{i}.py")]
            r = space(m, ("checks", [f"cd /verif; VERIF_SEED=1 VERIF_TIER=quick bin/check {i}" for i in ids]))
            m["checks"] = [(c.split()[-1], rc) for c, rc, _ in r]
            m["caught"] = r[-1][1] == 1 and "VIOLATION" in r[-1][2]
            print("%s %s:%d %s: %r -> %r   | %s" % (m["checks"][-1] if m["caught"] else "MISSED " + str(m["checks"][-1]), m["file"], m["line"], m["kind"], m["old"], m["new"], m["text"]), flush=True)
        return m
    with ThreadPoolExecutor(3) as ex:
        for m in ex.map(one, ms):
            pass
    json.dump(ms, open(out, "w"), indent=0)
    s = [m for m in ms if m.get("tests") == 0]
    print("caught", sum(m["caught"] for m in s), "of", len(s))


if __name__ == "__main__":
    if sys.argv[1] == "sample":
        sample(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else:
        globals()[sys.argv[1]](sys.argv[2])
