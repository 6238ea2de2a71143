"""Scoring.tla defines the likelihood and posterior equations of a respondent (two-, three-parameter and multidimensional items, normal mixture
priors); TLC checks on every pattern of answers to small tests that they are the slope of the log-posterior and fall. ScoringTrace checks
that reported abilities are sign changes of the equation or ends of the range, and the value reported where nothing can be estimated."""
import numpy as np
from vlib import present as P, scoring as S
from vlib.fx import fx, NAN
from checks.A01 import CFG
SPEC = "ScoringTrace"
ASSUMES = ["in the multidimensional routine only for priors whose middle is not a minimum (it starts its search there)"]
ROUTINES = ["ability_mle", "ability_map", "ability_3pl_mle", "ability_3pl_map", "multidimensional_ability_map"]


def models(ctx):
    ctx.model("ScoringMC", CFG % (2, "50000, 120000", "60000, 131072", "0, 16000", "TRUE"), workers=8)
    ctx.model("ScoringMC", CFG % (2, "65536, 98304", "91072, 190000", "0, 9000", "FALSE"), workers=8)
    if not ctx.quick:
        ctx.model("ScoringMC", CFG % (3, "50000, 120000", "60000, 131072", "0, 16000", "FALSE"), workers=8, timeout=800)


def cases(ctx):
    k = 0
    for fn in ROUTINES:
        md = fn.startswith("multi")
        for v in range(ctx.n(24, 150)):
            k += 1
            n = [4, 6, 9, 2, 15, 30][v % 6] if not md else [4, 6, 8][v % 3]
            yield dict(op="maximum", fn=fn, seed=1000 * ctx.seed + k, n=n, factors=[2, 3][v % 2] if md else 1,
                       cats=None if not md else [[2] * n, [3, 2, 4, 2, 3, 2, 2, 3][:n], [3] * n][(v // 2) % 3], num=40, miss=[0, .25, .5][k % 3],
                       density="flat" if fn.endswith("mle") else ["normal", "wide", "skew", "bimodal" if not md else "skew", "far", "high", "spike"][v % 7], scalar=v % 4 == 3 and fn in ("ability_map", "ability_mle"),
                       k=v, d=130 if not md else 2000, eps=25, sentinel=[None, 5, -4, 99.5, 0.25][v % 5] if fn.endswith("mle") else None)
        for v in range(ctx.n(3, 12)):           # very long tests; many respondents, of whom some are told
            k += 1
            n, crowd = [(45, 0), (6, 3000), (110, 0)][v % 3] if not md else [(18, 0), (5, 600), (30, 0)][v % 3]
            yield dict(op="maximum", fn=fn, seed=1000 * ctx.seed + k, n=n, factors=2 if md else 1, cats=None if not md or v % 3 == 1 else [3] * n, num=40, crowd=crowd, miss=[0, .25][v % 2],
                       density="flat" if fn.endswith("mle") else ["normal", "wide", "skew"][v % 3], scalar=False, k=v + 1, d=130 if not md else 2000, eps=25, sentinel=None)
        for v in range(ctx.n(4, 16)):           # steep items and answers that contradict each other
            k += 1
            n = [5, 8, 12][v % 3]
            yield dict(op="maximum", fn=fn, seed=1000 * ctx.seed + k, n=n, factors=1 + md, cats=[[2] * n, [3] * n][v % 2] if md else None, num=40, sharp=True, miss=[0, .25][v % 2],
                       density="flat" if fn.endswith("mle") else ["normal", "wide", "skew"][v % 3], scalar=False, k=v + 1, d=130 if not md else 2000, eps=25, sentinel=None)
        for v in range(ctx.n(4, 12) if not md else 0):      # items at one end of the range
            k += 1
            yield dict(op="maximum", fn=fn, seed=1000 * ctx.seed + k, n=[6, 10][v // 2 % 2], factors=1, cats=None, num=40, shift=[3.4, -3.4][(v + ctx.seed) % 2], miss=[0, .25][v // 2 % 2],
                       density="flat" if fn.endswith("mle") else "broad", scalar=False, k=v, d=130, eps=25, sentinel=None)


def run(c):
    rng = np.random.default_rng([62, c["seed"]])
    it = S.items(rng, c["fn"], c["n"], c["k"], c["factors"], c["cats"], c.get("sharp"), c.get("shift", 0))
    x = S.patterns(rng, c["n"], c["num"], c["miss"], it["cats"])
    if c["factors"] > 1:
        for i, m in enumerate(it["cats"]):
            x[5:5 + m, i] = np.arange(m)
    told = np.arange(len(x))
    if c.get("crowd"):
        x = np.r_[x, S.patterns(rng, c["n"], c["crowd"], c["miss"], it["cats"])]
        told = np.r_[:10, np.linspace(40, len(x) - 1, 30).astype(int)]
    opt = None if c["density"] == "normal" and c["k"] % 8 == 0 else dict(distribution=P.density(c["density"]))
    r = S.score(c["fn"], x, it, opt, c["sentinel"], c["scalar"])
    assert len(r) == len(x)
    r, x = r[told], x[told]
    return dict(op="maximum", items=it["spec"], prior=S.prior(c["density"]), pats=x.tolist(), score=S.fxs(r), d=c["d"], eps=c["eps"], edge=fx(4 if c["factors"] > 1 else 6),
                mode="mle" if c["fn"].endswith("mle") else "map", sentinel=NAN if c["sentinel"] is None else fx(abs(c["sentinel"])))
