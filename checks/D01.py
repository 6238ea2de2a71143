"""Responses.tla states tagging and reverse scoring; ResponsesMC explores every sequence of the steps on small tables
(missing is forever, answers kept, involution); ResponsesTrace judges every recorded chain of calls of the real functions."""
import itertools
import numpy as np
from vlib.fx import exa
SPEC = "ResponsesTrace"
MISS = -99999
INTS = ["int64", "int8", "uint8", "int16", "uint16", "int32", "uint32", "bool", "float64", "float32"]


def models(ctx):
    ctx.model("ResponsesMC", """SPECIFICATION Spec
CONSTANTS Items = 2 Persons = %d Codes = {1,2,3} Junk = 9 MaxVal = 3 TagSets = {{1,2,3},{1,3}}
INVARIANTS MissingIsForever AnswersKept ReverseIsAnInvolution TagIsIdempotent""" % ctx.n(2, 3))


def cases(ctx):
    rng = ctx.rng
    # exhaustive: every 1x2 and every 2x2 table over three answers, one junk code and the missing code, two-step chains
    vals = [0, 1, 2, 7, MISS]
    for t in itertools.product(vals, repeat=4):
        x = [list(t[:2]), list(t[2:])]
        k = rng.randrange(6)
        steps = [[("tag", [0, 1, 2]), ("rev", [True, False], 1)],
                 [("rev", [True, True], 2), ("tag", [0, 1, 2]), ("rev", [True, True], 2)],
                 [("tag", [1]), ("rev", [False, True], 1), ("tag", [1, 0])],
                 [("rev", [False, True], 1), ("rev", [False, True], 1)],
                 [("tag", [0, 2]), ("tag", [0, 1])],
                 [("rev", [False, False], 3), ("tag", [7])]][k]
        yield dict(op="chain", x=x, dt="int64", steps=steps)
    # storage types and shapes; junk codes that an overflowing conversion could turn into answers
    for dt in INTS:
        for m in range(ctx.n(12, 60)):
            ni, nr = rng.choice([1, 2, 3, 5]), rng.choice([0, 1, 2, 7, 30])
            lo, hi = rng.choice([(0, 1), (1, 5), (0, 4), (1, 3), (1, 7)])
            if dt == "bool":
                pool = [0, 1]
            else:
                pool = list(range(lo, hi + 1)) + [hi + 1, 9, 97, 100]
                if dt in ("int64", "int32", "float64", "float32"):
                    pool += [MISS, -1, -99998, 100000, -100000]
                elif dt in ("int8", "int16"):
                    pool += [-1, -9]
                if dt == "int16":
                    pool += [31073, -31073]
                if dt == "uint16":
                    pool += [31073, 65535]
                if dt in ("float64", "float32"):
                    pool += ["nan", "inf", lo + .5, hi - .25, lo + 1.1, "1.9999999"]
            x = [[rng.choice(pool) for _ in range(nr)] for _ in range(ni)]
            valid = sorted(rng.sample(range(lo, hi + 1), rng.randint(1, hi - lo + 1)))
            if dt == "bool" and m % 2:
                valid = [1]
            steps = [("tag", valid)]
            for _ in range(rng.randint(0, 3)):
                if rng.random() < .6:
                    steps.append(("rev", [rng.random() < .5 for _ in range(ni)], rng.choice([hi, hi, lo + hi - 1])))
                else:
                    steps.append(("tag", rng.choice([valid, list(range(lo, hi + 1))])))
            yield dict(op="chain", x=x, dt=dt, steps=steps, vt=rng.choice(["list", "tuple", "array", "range"]),
                       order=rng.choice(["C", "F", "view", "neg", "ro"]), default5=rng.random() < .2)
    # reversing raw tables of every type directly
    for dt in INTS:
        for m in range(ctx.n(6, 30)):
            ni, nr = rng.choice([1, 2, 4]), rng.choice([1, 3, 9])
            hi = 1 if dt == "bool" else rng.choice([3, 5, 7, 100])
            lo = 0 if dt == "bool" else rng.choice([0, 1])
            mx = hi if lo else hi - 1
            pool = list(range(lo, hi + 1)) + ([MISS, MISS] if dt in ("int64", "int32", "float64", "float32") else [])
            x = [[rng.choice(pool) for _ in range(nr)] for _ in range(ni)]
            mk = [rng.random() < .6 for _ in range(ni)]
            yield dict(op="chain", x=x, dt=dt, steps=[("rev", mk, mx)] * rng.randint(1, 3), order=rng.choice(["C", "F", "view", "ro"]))


    # large tables, long lists of answers
    for m in range(ctx.n(10, 60)):
        dt = ["int64", "int16", "int32", "float64", "int64"][m % 5]
        ni, nr = [(1, 5000), (160, 12), (3, 1500), (40, 60), (2, 70)][m % 5]
        hi = [5, 300, 3, 7, 1000][m % 5]
        pool = list(range(1, hi + 1)) + [hi + 1, 0] + ([MISS, -1] if dt != "int16" else [-1])
        x = [[rng.choice(pool) for _ in range(nr)] for _ in range(ni)]
        valid = sorted(rng.sample(range(1, hi + 1), max(2, hi * 2 // 3)))
        yield dict(op="chain", x=x, dt=dt, steps=[("tag", valid), ("rev", [rng.random() < .5 for _ in range(ni)], hi), ("tag", list(range(1, hi + 1)))], vt=rng.choice(["list", "array"]), order=rng.choice(["C", "F"]))


def arrange(x, dt, order):
    a = np.array([[float(v) if isinstance(v, str) else v for v in row] for row in x],
                 dtype=object if dt.startswith("float") else None)
    a = a.astype(float).astype(dt) if dt.startswith("float") else a.astype(dt)
    if a.ndim != 2:
        a = a.reshape(len(x), -1)
    if order == "F":
        return np.asfortranarray(a)
    if order == "view":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 2 + 1), dtype=a.dtype)
        v = big[::2, 1::2]
        v[:] = a
        return v
    if order == "neg":
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if order == "ro":
        a.flags.writeable = False
    return a


def run(c):
    import girth, girth.common
    x = arrange(c["x"], c["dt"], c.get("order", "C"))
    before = x.tobytes(), x.dtype, x.shape
    cur, steps, alias = x, [], False
    for s in c["steps"]:
        inp = cur.copy()
        if s[0] == "tag":
            v = {"tuple": tuple, "array": np.array, "range": list}.get(c.get("vt"), list)(s[1])
            if c.get("vt") == "range" and s[1] == list(range(s[1][0], s[1][-1] + 1)):
                v = range(s[1][0], s[1][-1] + 1)
                v = list(v)
            nxt = girth.tag_missing_data(cur, v)
            steps.append(dict(a="tag", v=list(s[1]), out=exa(nxt)))
        else:
            if s[2] == 5 and c.get("default5"):
                nxt = girth.common.reverse_score(cur, np.array(s[1]))
            else:
                nxt = girth.common.reverse_score(cur, np.array(s[1]), s[2])
            steps.append(dict(a="rev", mask=list(s[1]), mx=s[2], out=exa(nxt)))
        alias = alias or bool(np.shares_memory(nxt, cur))
        alias = alias or not np.array_equal(inp, cur, equal_nan=inp.dtype.kind == "f")
        cur = nxt
    return dict(op="chain", x=exa(arrange(c["x"], c["dt"], "C")), steps=steps, alias=alias,
                unchanged=bool((x.tobytes(), x.dtype, x.shape) == before))
