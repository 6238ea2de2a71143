"""Tables that are exact populations of a model (see spec/Population.tla)."""
import itertools
import numpy as np
from . import present as P, routines as R
from .fx import fx, fl

MISS = P.MISS


def nodes(c):
    t, w = np.polynomial.legendre.leggauss(c["q"])
    lo, hi = c["bounds"]
    t, w = (hi - lo) / 2 * (t + 1) + lo, w * (hi - lo) / 2
    return t, w * P.density(c["density"])(t)


def category(item, t):
    a, b = item["a"], np.asarray(item["b"])
    if item["kind"] == "credit":
        z = np.concatenate([np.zeros((1, t.size)), np.cumsum(a * (t[None] - b[:, None]), axis=0)])
        u = np.exp(z - z.max(0))
        return u / u.sum(0)
    up = 1 / (1 + np.exp(-a * (t[None] - b[:, None])))
    up = np.concatenate([np.ones((1, t.size)), up, np.zeros((1, t.size))])
    return up[:-1] - up[1:]


def marginal(c):
    t, w = nodes(c)
    items = c["items"]
    tab = [category(i, t) for i in items]
    cols, pats, counts = [], [], []
    for d in c["designs"]:
        ps, cs = [], []
        spaces = [range(len(i["b"]) + 1) if on else [None] for i, on in zip(items, d)]
        exact = []
        for p in itertools.product(*spaces):
            pr = w.copy()
            for k, v in enumerate(p):
                if v is not None:
                    pr = pr * tab[k][v]
            exact.append(pr.sum())
            ps.append([MISS if v is None else v for v in p])
        cs = [int(round(c["n"] * s)) for s in exact]
        for p, m in zip(ps, cs):
            cols += [[v if v == MISS else v + c["low"] for v in p]] * m
        pats.append(ps)
        counts.append(cs)
    x = np.array(cols, dtype=int).T
    x = np.ascontiguousarray(x[:, np.random.default_rng(3).permutation(x.shape[1])])
    o = dict(quadrature_n=c["q"], quadrature_bounds=tuple(c["bounds"]), distribution=P.density(c["density"]), max_iteration=c.get("iter", 100))
    if not c["lut"]:
        o["use_LUT"] = False
    e = R.est(c["fn"], x, o, disc=items[0]["a"] if c["fn"] == "rasch_mml" else None)
    return dict(op="marginal", n=c["n"], designs=c["designs"], items=[dict(a=fx(i["a"]), b=[fx(v) for v in i["b"]], kind=i["kind"]) for i in items],
                th=[fx(v) for v in t], w=[fl(v) for v in w], pats=pats, counts=counts,
                disc=[fx(v) for v in e["disc"]], diff=[[fx(v) for v in r] for r in e["diff"]], atol=c["atol"], btol=c["btol"])


def conditional(c):
    items = c["items"]
    n = len(items)
    ez = np.array([np.exp(-i["a"] * i["b"][0]) for i in items])
    pats = [list(p) for p in itertools.product([0, 1], repeat=n)]
    wt = np.array([np.prod(ez[np.array(p) == 1]) for p in pats])
    sc = np.array([sum(p) for p in pats])
    cols, counts = [], []
    for p, wgt, s in zip(pats, wt, sc):
        m = int(round(c["scores"][s] * wgt / wt[sc == s].sum()))
        counts.append(m)
        cols += [p] * m
    x = np.array(cols, dtype=int).T
    r = R.call("rasch_conditional", x, dict(max_iteration=200), disc=items[0]["a"])
    return dict(op="conditional", items=[dict(a=fx(i["a"]), b=[fx(v) for v in i["b"]], kind="graded") for i in items], pats=[p for p, s in zip(pats, sc) if 0 < s < n],
                counts=[m for m, s in zip(counts, sc) if 0 < s < n], scores=c["scores"][1:], disc=[fx(v) for v in np.atleast_1d(r["Discrimination"])],
                diff=[fx(v) for v in np.asarray(r["Difficulty"])], btol=c["btol"])
