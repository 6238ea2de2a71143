"""Responses.tla defines the ordinal recoding; ResponsesMC checks that the definition is monotone, fills its blocks and
depends on the order of the codes only; ResponsesTrace judges the recorded calls, among them every small table."""
import itertools
import numpy as np
from vlib.fx import exa
from checks.D01 import arrange
SPEC = "ResponsesTrace"
MISS = -99999


def models(ctx):
    ctx.model("ResponsesMC", """INIT Init NEXT Next
CONSTANTS Items = 2 Persons = %d Codes = {0,1,2} Junk = 5 MaxVal = 2 TagSets = {{0,1,2,5}}
INVARIANTS RecodeIsMonotone RecodeFillsBlocks RecodeIgnoresCodes TrimMirrors BlanksAreTrimmed""" % ctx.n(2, 3))


def cases(ctx):
    rng = ctx.rng
    for t in itertools.product([0, 1, 2, MISS], repeat=6):
        if all(v == MISS for v in t):
            continue
        if ctx.quick and hash_small(t) % 2:
            continue
        sh = (rng.choice([0, 0, 1, -1, -3]), rng.choice([1, 1, 2, 3]))
        x = [[v if v == MISS else v * sh[1] + sh[0] for v in t[:3]], [v if v == MISS else v * sh[1] + sh[0] for v in t[3:]]]
        yield dict(op="recode", x=x, dt="int64", trim=rng.random() < .6)
    for dt in ["int64", "int8", "uint8", "int16", "uint16", "int32", "uint32", "uint64", "bool"]:
        for m in range(ctx.n(24, 120)):
            ni, nr = rng.choice([1, 2, 3, 5, 40]), rng.choice([1, 2, 5, 12])
            signed = dt in ("int64", "int32", "int8", "int16")
            miss = dt in ("int64", "int32")
            rows = []
            base = rng.choice([0, 1, 1, 10, 100]) if not signed else rng.choice([0, 1, -2, -7, 100, -100])
            gap = rng.choice([1, 1, 2])
            for _ in range(ni):
                k = rng.choice([1, 2, 3, 5, 9])
                pool = [base + gap * j for j in rng.sample(range(12), k)]
                if rng.random() < .15:
                    pool = [base]
                if dt == "bool":
                    pool = rng.choice([[0, 1], [1], [0]])
                rows.append([MISS if miss and rng.random() < .2 else rng.choice(pool) for _ in range(nr)])
            if all(v == MISS for r in rows for v in r):
                continue
            if rng.random() < .5 and nr > 2:      # planted extreme respondents
                vs = [v for r in rows for v in r if v != MISS]
                for r in rows:
                    r[0] = min(vs)
                    r[1] = max(vs)
                    if miss and rng.random() < .3:
                        r[0] = MISS
                    if miss and rng.random() < .3:
                        r[1] = MISS
            yield dict(op="recode", x=rows, dt=dt, trim=rng.random() < .6, order=rng.choice(["C", "F", "view", "neg", "ro"]),
                       deft=rng.random() < .3)
    # long tests: respondents one answer away from an end stay
    for m in range(ctx.n(6, 24)):
        ni, lo, hi = rng.choice([60, 150, 250, 400]), rng.choice([0, 1, -2]), rng.choice([1, 3, 4])
        hi += lo
        cols = []
        for e in [lo, hi, lo, hi, lo, hi]:
            col = [e] * ni
            if rng.random() < .7:
                for _ in range(rng.choice([1, 1, 2])):
                    col[rng.randrange(ni)] = rng.choice([v for v in range(lo, hi + 1) if v != e])
            if rng.random() < .4:
                for _ in range(ni // 3):
                    col[rng.randrange(ni)] = MISS
            cols.append(col)
        yield dict(op="recode", x=[[q[i] for q in cols] for i in range(ni)], dt=rng.choice(["int64", "int32"]), trim=True)


    # many respondents, items with very many categories
    for m in range(ctx.n(8, 40)):
        dt = ["int64", "int16", "int32", "uint16"][m % 4]
        ni, nr, cats = [(2, 3000, 4), (2, 900, 300), (3, 400, 140), (1, 600, 257)][m % 4]
        low = rng.choice([0, 1, 5])
        x = [[MISS if m % 4 == 0 and rng.random() < .1 else low + (j if i == 0 and j < cats else rng.randrange(cats)) for j in range(nr)] for i in range(ni)]
        yield dict(op="recode", x=x, dt=dt, trim=bool(m % 3), order=rng.choice(["C", "F", "view"]))


def hash_small(t):
    h = 7
    for v in t:
        h = (h * 31 + v) % 1000003
    return h


def run(c):
    import girth
    x = arrange(c["x"], c["dt"], c.get("order", "C"))
    before = x.tobytes(), x.dtype, x.shape
    if c["trim"] and c.get("deft"):
        out, counts, mask = girth.condition_polytomous_response(x)
    else:
        out, counts, mask = girth.condition_polytomous_response(x, trim_ends=c["trim"])
    m = np.asarray(mask)
    return dict(op="recode", x=exa(arrange(c["x"], c["dt"], "C")), trim=c["trim"], out=exa(out), counts=exa(counts),
                mask=[[bool(v) for v in r] for r in m.tolist()] if m.dtype == bool else [],
                alias=bool(np.shares_memory(out, x)), unchanged=bool((x.tobytes(), x.dtype, x.shape) == before))
