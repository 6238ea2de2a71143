"""Scoring.tla defines posterior means over quadrature nodes for dichotomous, three-parameter and multidimensional graded items; TLC checks
on every pattern of answers to small tests that means balance, ignore unanswered items, rise with the answers and reflect. Scores of the
expected-a-posteriori routines, with missing answers and any density and quadrature, are recomputed by ScoringTrace."""
import numpy as np
from vlib import present as P, scoring as S
from vlib.fx import fx, fl
SPEC = "ScoringTrace"
ROUTINES = ["ability_eap", "ability_3pl_eap", "multidimensional_ability_eap"]
CFG = ("SPECIFICATION Spec\nCONSTANTS NItems = %d Slopes = {%s} Places = {%s} Floors = {%s} Even = %s\n"
       "INVARIANTS InRange Balanced Short Reflects Falls IsSlope\nPROPERTY Rises")


def models(ctx):
    ctx.model("ScoringMC", CFG % (2, "30000, 110000", "65536, 150000", "0, 13107", "TRUE"), workers=8)
    ctx.model("ScoringMC", CFG % (2, "65536, 131072", "91072, 131072", "0, 20000", "FALSE"), workers=8)
    if not ctx.quick:
        ctx.model("ScoringMC", CFG % (3, "30000, 110000", "65536, 150000", "0, 13107", "TRUE"), workers=8, timeout=800)


def cases(ctx):
    k = 0
    for fn in ROUTINES:
        for v in range(ctx.n(24, 150)):
            k += 1
            md = fn.startswith("multi")
            factors = 1 if not md else [2, 3, 2][v % 3]
            n = [4, 6, 9, 1, 3, 20][v % 6] if not md else [4, 6, 3][v % 3]
            cats = None
            if md:
                cats = [[2] * n, [3, 2, 4, 2, 3, 2][:n], [3] * n][(v // 3) % 3]
            q = [41, 21, 15, 61][v % 4] if not md else ([9, 12, 15][v % 3] if factors == 2 else [8, 9][v % 2])
            yield dict(op="posterior", fn=fn, seed=1000 * ctx.seed + k, n=n, factors=factors, cats=cats, num=25, miss=[0, .25, .5][k % 3], q=q,
                       bounds=[[-4.5, 4.5], [-5, 5], [-4, 5], [-3, 3.5]][(v // 2) % 4], density=["normal", "wide", "skew", "bimodal", "far", "high", "spike"][v % 7], default=v == 0 and not md,
                       scalar=v % 4 == 3 and fn == "ability_eap", k=v, tol=65 if not md else 100 if factors == 2 else 150)
        for v in range(ctx.n(4, 16)):           # very long tests; very many respondents, of whom some are told
            k += 1
            n, crowd = [(45, 0), (5, 6000), (110, 0), (8, 15000)][v % 4] if fn != ROUTINES[2] else [(45, 0), (5, 2500), (60, 0), (7, 2500)][v % 4]
            yield dict(op="posterior", fn=fn, seed=1000 * ctx.seed + k, n=n, factors=1 + (fn == ROUTINES[2]), cats=None if fn != ROUTINES[2] or v % 4 else [3] * n, num=25, crowd=crowd,
                       miss=[0, .25][k % 2], q=41 if fn != ROUTINES[2] else 15, bounds=[-4.5, 4.5], density=["normal", "wide", "skew", "far"][v % 4], default=False, scalar=False, k=v,
                       tol=70 if n < 60 else 110)
        for v in range(ctx.n(4, 16)):           # steep items and answers that contradict each other
            k += 1
            md = fn == ROUTINES[2]
            n = [6, 9, 4][v % 3]
            yield dict(op="posterior", fn=fn, seed=1000 * ctx.seed + k, n=n, factors=1 + md, cats=[[2] * n, [3] * n][v % 2] if md else None, num=25, miss=[0, .25][v % 2], sharp=True, q=[61, 41][v % 2] if not md else 15,
                       bounds=[[-4.5, 4.5], [-6, 6]][v // 2 % 2], density=["normal", "wide", "skew"][v % 3], default=False, scalar=False, k=v, tol=100)


def run(c):
    rng = np.random.default_rng([61, c["seed"]])
    it = S.items(rng, c["fn"], c["n"], c["k"], c["factors"], c["cats"], c.get("sharp"))
    x = S.patterns(rng, c["n"], c["num"], c["miss"], it["cats"])
    if c["factors"] > 1:
        for i, m in enumerate(it["cats"]):          # every category occurs on every item
            x[5:5 + m, i] = np.arange(m)
    told = np.arange(len(x))
    if c.get("crowd"):
        x = np.r_[x, x[rng.integers(0, 25, c["crowd"])]]
        more = rng.integers(0, 2, x[25:].shape) < np.linspace(.1, .9, c["crowd"])[:, None]
        x[25:] = np.where(more, x[25:], S.patterns(rng, c["n"], c["crowd"], c["miss"], it["cats"]))
        told = np.r_[:10, np.linspace(25, len(x) - 1, 15).astype(int)]
    opt = dict(quadrature_n=c["q"], quadrature_bounds=tuple(c["bounds"]), distribution=P.density(c["density"]))
    q, (lo, hi), dens = c["q"], c["bounds"], c["density"]
    if c["default"]:
        opt, q, lo, hi, dens = None, 41, -4.5, 4.5, "normal"
    r = S.score(c["fn"], x, it, opt, scalar=c["scalar"])
    assert len(r) == len(x)
    r, x = r[told], x[told]
    t, w = np.polynomial.legendre.leggauss(q)
    t, w = (hi - lo) / 2 * (t + 1) + lo, w * (hi - lo) / 2 * P.density(dens)((hi - lo) / 2 * (t + 1) + lo)
    return dict(op="posterior", items=it["spec"], factors=c["factors"], th=[fx(v) for v in t], w=[fl(v) for v in w], pats=x.tolist(), score=S.fxs(r), tol=c["tol"])
