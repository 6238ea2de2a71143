"""Observes the joint routines (see spec/Joint.tla)."""
import numpy as np
from . import routines as R
from .fx import fx

MISS = -99999


def probs(item, t):
    a, b = item["a"], np.asarray(item["b"])
    if item["kind"] == "credit":
        z = np.concatenate([[0], np.cumsum(a * (t - b))])
        u = np.exp(z - z.max())
        return u / u.sum()
    up = np.concatenate([[1], 1 / (1 + np.exp(-a * (t - b))), [0]])
    return up[:-1] - up[1:]


def locate(items, p):
    """Where the likelihood of a pattern is largest within +-6 (claimed; the specification decides)."""
    def ll(ts):
        return np.array([sum(np.log(probs(i, t)[v] + 1e-300) for i, v in zip(items, p) if v != MISS) for t in ts])
    lo, hi = -6.0, 6.0
    for _ in range(9):
        g = np.linspace(lo, hi, 13)
        k = int(np.argmax(ll(g)))
        lo, hi = g[max(k - 1, 0)], g[min(k + 1, 12)]
    return (lo + hi) / 2 if hi - lo < 1e-3 else g[k]


def observe(c):
    x = np.array(c["table"])
    o = dict(max_iteration=c["iter"])
    disc = c.get("given")
    e = R.est(c["fn"], x, o, disc=disc)
    again = R.est(c["fn"], x, dict(max_iteration=c["iter"] + 1), disc=disc)
    low = c["low"]
    items, blank = [], True
    for a, row, m in zip(e["disc"], e["diff"], c["steps"]):
        items.append(dict(a=float(a), b=[float(v) for v in row[:m]], kind=c["kind"]))
        blank = blank and len(row) >= m and bool(np.isnan(row[m:]).all())
    pats, n = np.unique(x, axis=1, return_counts=True)
    pats = [[MISS if v == MISS else int(v) - low for v in col] for col in pats.T]
    use = [any(v not in (MISS, 0) for v in p) and any(v not in (MISS, m) for v, m in zip(p, c["steps"])) for p in pats]
    th = [locate(items, p) if u else 0.0 for p, u in zip(pats, use)]
    return dict(op="joint", pats=pats, n=[int(v) for v in n], th=[fx(t) for t in th],
                items=[dict(a=fx(i["a"]), b=[fx(v) for v in i["b"]], kind=i["kind"]) for i in items], blank=blank,
                converged=bool(np.array_equal(e["disc"], again["disc"]) and np.array_equal(e["diff"], again["diff"], equal_nan=True)),
                alike=c["fn"] in ("rasch_jml", "onepl_jml", "twopl_jml"), slopes={"rasch_jml": "given", "onepl_jml": "single"}.get(c["fn"], "each"),
                given=fx(disc if disc is not None else 1), d=c["d"])
