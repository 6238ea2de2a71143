"""Responses.tla defines counts, kernel signs, trimming of constant patterns and the analytic start values;
ResponsesTrace judges the recorded calls, among them every small table."""
import itertools, math
import numpy as np
from vlib.fx import exa, fxa
from checks.D01 import arrange
SPEC = "ResponsesTrace"
MISS = -99999


def models(ctx):
    ctx.model("ResponsesMC", """INIT Init NEXT Next
CONSTANTS Items = 2 Persons = %d Codes = {0,1} Junk = 3 MaxVal = 0 TagSets = {{0,1}}
INVARIANTS MissingIsForever ReverseIsAnInvolution TagIsIdempotent""" % ctx.n(2, 3))


def cases(ctx):
    rng = ctx.rng
    for t in itertools.product([0, 1, 3, MISS], repeat=6):
        x = [list(t[:3]), list(t[3:])]
        yield dict(op="count", x=x, dt=rng.choice(["int64", "int32", "float64"]))
    for t in itertools.product([0, 1, MISS], repeat=6):
        x = [list(t[0::3]), list(t[1::3]), list(t[2::3])]
        yield dict(op="trim", x=x, dt="int64", counts=[rng.randint(1, 9) for _ in range(2)])
    for dt in ["int64", "int8", "uint8", "int16", "int32", "float64", "bool"]:
        for m in range(ctx.n(15, 80)):
            ni, nr = rng.choice([1, 2, 3, 6, 12]), rng.choice([0, 1, 4, 11])
            miss = dt in ("int64", "int32", "float64")
            pool = [0, 1] if dt == "bool" else [0, 1, 0, 1, 2, 5] + ([MISS] * 2 if miss else []) + ([-1] if dt != "uint8" else [])
            x = [[rng.choice(pool) for _ in range(nr)] for _ in range(ni)]
            yield dict(op="count", x=x, dt=dt, order=rng.choice(["C", "F", "view", "neg", "ro"]))
            pool = [0, 1] if dt == "bool" else rng.choice([[0, 1], [1, 2, 3], [0, 1, 2]] + ([[-1, 0, 1], [-1, 1], [-3, -2]] if dt not in ("uint8", "bool") else [])) + ([MISS] * 2 if miss else [])
            cols = []
            for _ in range(nr):
                v = rng.choice(pool)
                cols.append([rng.choice(pool) if rng.random() < .6 else v for _ in range(ni)] if rng.random() < .5
                            else [rng.choice([v, MISS]) if miss else v for _ in range(ni)])
            x = [[cols[q][r] for q in range(nr)] for r in range(ni)]
            yield dict(op="trim", x=x, dt=dt, counts=[rng.randint(1, 500) for _ in range(nr)],
                       order=rng.choice(["C", "F", "view", "ro"]))
    # many respondents, told by distinct columns; long tests of which a single answer makes the pattern vary
    for m in range(ctx.n(4, 16)):
        ni = rng.randint(1, 3)
        cols = rng.sample(list(itertools.product([0, 1, MISS], repeat=ni)), min(3 ** ni, rng.randint(2, 6)))
        yield dict(op="bulk", cols=[list(k) for k in cols], n=[rng.choice([1, 130, 260, 33000, 66000, 140000]) for _ in cols], dt=["int64", "int32", "float64"][m % 3],
                   order=rng.choice(["C", "F"]))
    for m in range(ctx.n(12, 60)):
        ni = rng.choice([90, 150, 300, 500])
        cols = []
        for _ in range(6):
            v = rng.choice([0, 1, 2])
            col = [v] * ni
            for k in rng.sample(range(ni), rng.choice([0, 1, 1, 2])):
                col[k] = rng.choice([0, 1, 2, MISS])
            cols.append(col)
        yield dict(op="trim", x=[[q[r] for q in cols] for r in range(ni)], dt="int64", counts=[rng.choice([1, 40000, 300]) for _ in cols], order=rng.choice(["C", "F"]))
    for m in range(ctx.n(60, 300)):
        ni = rng.randint(1, 6)
        s = rng.choice([2, 3, 4])
        rows, w = [], 40
        for _ in range(ni):
            no = rng.choice([1, 2, 4])
            k = rng.randint(0, 3)
            yes = no * 2 ** k
            if rng.random() < .5:
                no, yes = yes, no
            r = [0] * no + [1] * yes + [rng.choice([MISS, 2, -1])] * (w - no - yes)
            rng.shuffle(r)
            rows.append(r)
        yield dict(op="approx", x=rows, s=s, vec=rng.random() < .5, scal=rng.random() < .3, dt="int64")


def bulk(girth, c):
    where = np.repeat(np.arange(len(c["n"])), c["n"])
    np.random.default_rng(5).shuffle(where)
    x = np.array(c["cols"], dtype=c["dt"])[where].T
    x = np.asfortranarray(x) if c.get("order") == "F" else np.ascontiguousarray(x)
    before = x.tobytes()
    f, t = girth.get_true_false_counts(x)
    s = np.asarray(girth.convert_responses_to_kernel_sign(x))
    seen = [np.unique(s[:, where == k], axis=1) for k in range(len(c["n"]))]
    return dict(op="bulk", x=np.array(c["cols"]).T.tolist(), n=c["n"], nfalse=exa(f), ntrue=exa(t),
                sign=[exa(r) for r in np.hstack(seen)], unchanged=x.tobytes() == before)


def run(c):
    import girth
    if c["op"] == "bulk":
        return bulk(girth, c)
    x = arrange(c["x"], c["dt"], c.get("order", "C"))
    before = x.tobytes(), x.dtype, x.shape
    e = dict(op=c["op"], x=exa(arrange(c["x"], c["dt"], "C")))
    if c["op"] == "count":
        f, t = girth.get_true_false_counts(x)
        e.update(nfalse=exa(f), ntrue=exa(t), sign=exa(girth.convert_responses_to_kernel_sign(x)))
    elif c["op"] == "trim":
        k = np.array(c["counts"], dtype=int)
        o, n = girth.trim_response_set_and_counts(x, k)
        e.update(counts=c["counts"], out=exa(np.asarray(o)), outcounts=exa(np.asarray(n)))
        if not np.array_equal(k, c["counts"]):
            e["outcounts"] = [-1]
    else:
        a = math.sqrt(3 * (c["s"] ** 2 - 1))
        d = np.full(len(c["x"]), a) if c["vec"] else a
        if c["scal"]:
            f, t = girth.get_true_false_counts(x)
            o = girth.mml_approx(x, d, np.log(f / t))
        else:
            o = girth.mml_approx(x, d)
        e.update(s=c["s"], out=fxa(np.asarray(o) * a / math.log(2)))
    e["unchanged"] = bool((x.tobytes(), x.dtype, x.shape) == before)
    return e
