"""Classical defines counts, means, deviations, item-rest correlations, Cronbach's alpha and the likelihood equation of the polyserial
correlation over tables with missing cells; TLC checks it on every small table. ClassicalTrace recomputes everything the real code reports
on random tables: few and many missing cells, respondents with one answer or none, constant items, every storage type."""
import numpy as np
from vlib.fx import fx, vec, exa, fxa
SPEC = "ClassicalTrace"
MISS = -99999


def models(ctx):
    ctx.model("ClassicalMC", "SPECIFICATION Spec\nCONSTANTS N = 2 P = %d Vals = {1,2,4}\nINVARIANTS Bounded AnyOrder NobodyElse AlphaOk" % ctx.n(3, 4), workers=8)
    ctx.model("ClassicalMC", "SPECIFICATION Spec\nCONSTANTS N = 3 P = %d Vals = {%s}\nINVARIANTS Bounded AnyOrder NobodyElse AlphaOk" % (ctx.n(2, 3), ctx.n("0,1,3", "0,1")), workers=8)


def cases(ctx):
    for k in range(ctx.n(130, 900)):
        yield dict(op="ctt", seed=1000 * ctx.seed + k, n=3 + k % 4, m=[30, 60, 15][k % 3], cats=[5, 2, 3, 7, 4][(k // 2) % 5], low=[1, 0, -2, 10][k % 4], miss=[.1, 0, .3, .6][(k // 3) % 4],
                   dtype=["int64", "float64", "int32"][k % 3], special=["none", "alone", "nobody", "constant", "none"][k % 5], v=k, compact=["", "int8", "uint8", "bool"][(k // 7) % 4])
        yield dict(op="alpha", seed=1000 * ctx.seed + 500 + k, n=2 + k % 5, m=[30, 8, 50][k % 3], cats=[5, 2, 3, 7][k % 4], low=[1, 0, -2, 10][(k // 2) % 4], miss=[.1, 0, .3, .5][(k // 3) % 4],
                   dtype=["int64", "float64", "int32"][k % 3], special=["none", "nobody"][k % 2], v=k, compact="")


    for k in range(ctx.n(10, 60)):              # many respondents, many items
        n, m = [(4, 900), (26, 40), (3, 1500), (14, 120)][k % 4]
        yield dict(op="ctt" if k % 3 else "alpha", seed=1000 * ctx.seed + 2000 + k, n=n, m=m, cats=[5, 2, 3, 12][k % 4], low=[1, 0, -2][k % 3], miss=[.1, 0, .3][k % 3],
                   dtype=["int64", "float64", "int32"][k % 3], special="none", v=k, compact=["", "int8", "uint8"][(k // 2) % 3])


    for k in range(ctx.n(12, 60)):              # an item that few answered
        yield dict(op="ctt", seed=1000 * ctx.seed + 3000 + k, n=3 + k % 4, m=[30, 60, 15][k % 3], cats=[5, 3, 7, 4][k % 4], low=[1, 0, -2, 10][k % 4], miss=[.1, 0, .3][k % 3],
                   dtype=["int64", "float64", "int32"][k % 3], special="few", v=k, compact="")


def run(c):
    import girth, girth.common as gc
    from scipy.stats import norm
    rng = np.random.default_rng([81, c["seed"]])
    f = rng.normal(0, 1, c["m"])
    x = np.array([np.clip(np.round((f * rng.uniform(-.2, 1) + rng.normal(0, .7, c["m"])) * c["cats"] / 3 + (c["cats"] - 1) / 2), 0, c["cats"] - 1) for _ in range(c["n"])]).astype(int) + c["low"]
    if c["special"] == "constant" and c["op"] == "ctt":
        x[0] = c["low"] + 1
    x[1:, 0], x[1:, 1], x[1:, 2] = c["low"], c["low"] + 1, c["low"]
    if c["compact"] and c["low"] >= 0:      # no missing cells in the narrow types
        if c["compact"] == "bool":
            x = ((x - c["low"]) > (c["cats"] - 1) / 2).astype(int)
            x[1:, 0], x[1:, 1] = 0, 1
        y = x.astype(c["compact"])
    else:
        hole = rng.random(x.shape) < c["miss"]
        hole[:, :4] = False
        if c["special"] == "alone":
            hole[:, 4] = True; hole[0, 4] = False
            hole[:, 5] = True; hole[-1, 5] = False
        if c["special"] == "few":
            hole[1, [4, 3][c["v"] % 2]:] = True
            x[1, 3] = c["low"] + 2
            x[0, :4] = c["low"] + np.array([0, 1, 2, 1])
        if c["special"] == "nobody":
            hole[:, 4] = True
        x = np.where(hole, MISS, x)
        y = x.astype(c["dtype"])
    keep = y.copy()
    if c["op"] == "alpha":
        return dict(op="alpha", x=x.tolist(), alpha=fx(gc.cronbach_alpha(y)), untouched=bool((y == keep).all()))
    r = girth.classical_test_statistics(y) if c["v"] % 2 else girth.classical_test_statistics(y, start_value=c["low"], stop_value=c["low"] + c["cats"] - 1)
    cuts = []
    for i in range(c["n"]):
        o = (x != MISS)
        ok = o[i] & np.delete(o, i, 0).any(0)
        n = np.unique(x[i][ok], return_counts=True)[1]
        cuts.append(fxa(norm.ppf(np.cumsum(n)[:-1] / n.sum())))
    return dict(op="ctt", x=x.tolist(), counts=vec(r["Item Counts"]) if False else exa(r["Item Counts"]), mean=vec(r["Mean"]), std=vec(r["Std"]), corr=vec(r["Item-Score Correlation"]),
                alpha=vec(r["Cronbach Alpha"]), polyserial=vec(r["Polyserial Correlation"]), cuts=cuts, serial=c["v"] % 2 == 0 or c["special"] in ("alone", "constant", "few"), untouched=bool((y == keep).all()))
