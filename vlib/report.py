"""Observes everything an estimation reports (see spec/ReportTrace.tla)."""
import numpy as np
from . import present as P, routines as R
from .fx import fx, fl, FX

MISS = P.MISS
DISC = {"onepl_mml": (.25, 10), "twopl_mml": (.2, 5), "grm_mml": (.2, 5), "twopl_mml_eap": (.2, 5), "grm_mml_eap": (.2, 5), "onepl_jml": (.25, 5), "twopl_jml": (.25, 4),
        "grm_jml": (.25, 4), "pcm_jml": (.25, 4), "pcm_mml": (.25, 4), "gum_mml": (.25, 4), "threepl_mml": (.25, 4)}
KIND = {"pcm_mml": "credit", "gum_mml": "unfold", "multidimensional_twopl_mml": "multi", "multidimensional_grm_mml": "multi"}


def observe(c):
    fn = c["fn"]
    x = np.array(c["table"])
    o = P.options(c)
    kw = dict(n_factors=c.get("factors", 1)) if fn in R.MD else {}
    if fn == "gum_mml" and c.get("sign"):
        kw["delta_sign"] = tuple(c["sign"])
    if c.get("disc"):
        kw["disc"] = c["disc"]
    e = R.est(fn, x.copy(), o, **kw)
    r = e["raw"]
    low = min(v for row in c["table"] for v in row if v != MISS)
    codes = [sorted(set(row) - {MISS}) for row in c["table"]]
    steps = [max(len(v), 2) - 1 for v in codes]
    n = len(steps)
    md = fn in R.MD
    disc = e["disc"].reshape(n, -1)
    diff = e["extra"][:, 1:] if fn == "gum_mml" else e["diff"]
    f = c.get("factors", 1)
    lo, hi = DISC.get(fn, (c.get("disc") or 1,) * 2)
    brange = [] if md else [-fx(6), fx(6)]
    out = dict(op="report", fn=fn, steps=steps, factors=f, disc=[[fx(v) for v in q] for q in disc], diff=[[fx(v) for v in q] for q in diff],
               arange=[fx(lo), fx(hi)], brange=brange, extra=[[fx(v) for v in q] for q in e["extra"]], guess=bool((o or {}).get("initial_guess", True)),
               folded=[[fx(v) for v in q] for q in e["diff"]] if fn == "gum_mml" else [], sign=[c["sign"][0] + 1, c["sign"][1]] if c.get("sign") else [1, 1 if fn == "gum_mml" else 0],
               scored=fn in R.WITH_ABILITY, kind=KIND.get(fn, "graded"))
    if not out["scored"]:
        return out
    opt = dict(quadrature_bounds=(-4.5, 4.5), quadrature_n=41)
    opt.update(o or {})
    import girth
    a, b = opt["quadrature_bounds"]
    t, w = np.polynomial.legendre.leggauss(opt["quadrature_n"])
    t, w = (b - a) / 2 * (t + 1) + a, w * (b - a) / 2
    w0 = w * P.density(c.get("density"))(t)
    last = w0
    if opt.get("estimate_distribution") and opt.get("max_iteration", 100) > 1:
        last = r["LatentPDF"].cubic_splines[-1](t) * w
    idx = np.array([[MISS if v == MISS else codes[i].index(v) for v in row] for i, row in enumerate(c["table"])])
    if any(len(v) == 1 for v in codes):
        raise ValueError("items with one category are not described here")
    u, inv, cnt = np.unique(idx, axis=1, return_inverse=True, return_counts=True)
    inv = np.ravel(inv)
    ab = np.asarray(r["Ability"], float)
    ab = ab.reshape(f, -1)
    able = ab.shape[1]
    who = [np.flatnonzero(inv == k)[:3] for k in range(u.shape[1])] if able == x.shape[1] else [[] for _ in range(u.shape[1])]
    half = lambda v: fx(float(v) / 2)
    crit = lambda d: [half(d)] if md else [half(d[k]) for k in ("final", "null", "delta")]
    out.update(th=[fx(v) for v in t], w=[fl(v) for v in last], w0=[fl(v) for v in w0], pats=u.T.tolist(), n=[int(v) for v in cnt], able=int(able),
               ability=[[[fx(ab[j, p]) for j in range(f)] for p in ps] for ps in who], aic=crit(r["AIC"]), bic=crit(r["BIC"]), ll=fx(r["LL"]) if md else 0,
               k=(opt["number_of_samples"] if opt.get("estimate_distribution") else 3) - 3, tol=c["tol"], ltol=c["ltol"])
    return out
