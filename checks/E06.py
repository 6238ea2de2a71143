"""Lookup.tla defines the marginal probability of endorsing an item and the side of the range a share belongs to; TLC checks solving for
the difficulty by bisection. LookupTrace judges tables with items nobody or everybody endorses at every position, with and without
the lookup table, against the estimates without these items, and the order of difficulties by the counted shares."""
import numpy as np
from checks import L02
from vlib import present as P, routines as R
from vlib.fx import fx
SPEC = "LookupTrace"
TIMEOUT = 200
MISS = P.MISS
models = L02.models
TOL = {"rasch_mml": 150, "twopl_mml": 600, "grm_mml": 600, "onepl_mml": 26000, "twopl_mml_eap": 7000, "grm_mml_eap": 7000}


def cases(ctx):
    k = 0
    for fn in TOL:
        for lut in ((True, False) if fn in ("twopl_mml", "grm_mml") else (True,)):
            for pos in range(7):
                for what in ("none", "all", "both"):
                    for rep in range(ctx.n(1, 4)):
                        k += 1
                        yield dict(op="extreme", fn=fn, lut=lut, pos=pos, pos2=ctx.rng.randrange(7), what=what, seed=1000 * ctx.seed + k,
                                   miss=.08 if k % 2 else 0, low=ctx.rng.choice([0, 1]), disc=ctx.rng.choice([.5, 1, 1.7]),
                                   density=ctx.rng.choice(["normal", "wide", "skew"]))
    for fn in ("rasch_mml", "onepl_mml"):
        for v in range(ctx.n(25, 150)):
            yield dict(op="shares", fn=fn, seed=1000 * ctx.seed + v, miss=.1 if v % 2 else 0, items=[5, 8, 12][v % 3], disc=[1, .4, 2.5, 1.3][v % 4],
                       ends=v % 3 == 0, density=["normal", "wide", "skew"][v % 3])
        for v in range(ctx.n(5, 20)):             # neighbouring counts among many respondents
            yield dict(op="shares", fn=fn, seed=5000 * ctx.seed + v, miss=0, items=8, disc=[1, .4, 2.5, 1.3][v % 4], ends=False, density=["normal", "wide", "skew"][v % 3],
                       persons=[1500, 2500, 4000][v % 3], first=[.5, .9, .07, .3, .7][v % 5])


def run(c):
    rng = np.random.default_rng([41, c["seed"]])
    fn = c["fn"]
    d = fn in R.DICH
    o = dict(distribution=P.density(c["density"]))
    kw = dict(disc=c["disc"]) if fn == "rasch_mml" else {}
    if c["op"] == "shares":
        n = c["items"]
        x = R.dich_table(rng, n, 120, alpha=np.full(n, 1.1), beta=rng.uniform(-2, 2, n), miss=c["miss"])
        if "persons" in c:
            k = int(c["first"] * c["persons"]) + rng.permutation(n)
            x = np.array([rng.permutation(np.arange(c["persons"]) < j) for j in k]).astype(int)
        if c["ends"]:
            x[1], x[3] = 0, 1
        x[n - 1] = rng.permutation(x[0])          # the same share
        e = R.est(fn, x.copy(), o, **kw)
        return dict(op="shares", x=x.tolist(), diff=[[fx(v) for v in r] for r in e["diff"]], tol=60)
    o.update(use_LUT=c["lut"], max_iteration=60)
    low = 0 if d else c["low"]
    x = R.dich_table(rng, 6, 130, alpha=rng.uniform(.8, 1.8, 6), miss=c["miss"]) if d else R.poly_table(rng, 6, 130, [3, 4, 2, 3, 3, 4], low=low, miss=c["miss"])
    lo, hi = int(x[x != MISS].min()), int(x.max())
    y = x
    rows = {"none": [lo], "all": [hi], "both": [lo, hi]}[c["what"]]
    for q, v in enumerate(rows):
        r = np.full(x.shape[1], v)
        if c["miss"]:
            r[rng.random(r.size) < .3] = MISS
        y = np.insert(y, c["pos"] if q == 0 else c["pos2"], r, axis=0)
    const = [i for i in range(y.shape[0]) if len(set(y[i]) - {MISS}) == 1]
    rest = [i for i in range(y.shape[0]) if i not in const]
    a, b = R.est(fn, x.copy(), o, **kw), R.est(fn, y.copy(), o, **kw)
    f = lambda m: [[fx(v) for v in np.atleast_1d(r)] for r in m]
    assert len(rest) == 6
    return dict(op="extreme", x=y.tolist(), xlo=lo, xhi=hi, diff=f(b["diff"]), disc=f(b["disc"]), rdiff=f(a["diff"]), rdisc=f(a["disc"]), tol=TOL[fn])
