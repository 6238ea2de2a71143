"""Roster.tla describes scoring sessions (everyone at once, backwards, alone, twins, any batches); TLC checks that a score is a function of
the answers in every small session and generates random sessions, which are carried out on every ability routine. ScoringTrace compares
every score with the one of the whole group, equal answers with each other and better answers with worse ones."""
import itertools
import numpy as np
from vlib import present as P, routines as R, scoring as S
from vlib.fx import fx
SPEC = "ScoringTrace"


def models(ctx):
    ctx.model("Roster", "SPECIFICATION Spec\nCONSTANTS N = %d MaxBatch = 2 MaxBatches = 2\nINVARIANTS OneValue SameForSame Everyone" % ctx.n(4, 5), workers=8)


def cases(ctx):
    h = ctx.generate("Roster", "SPECIFICATION GenSpec\nCONSTANTS N = 24 MaxBatch = 6 MaxBatches = 8", lines=True,
                     args=["-simulate", "num=%d" % ctx.n(120, 400), "-depth", "10", "-seed", str(ctx.seed)])
    k = 0
    for fn in R.ABILITY + R.MD_ABILITY:
        md = fn in R.MD_ABILITY
        for v in range(ctx.n(10, 50)):
            k += 1
            n = [5, 8, 3][v % 3]
            c = dict(op="batches", fn=fn, seed=1000 * ctx.seed + k, n=n, factors=2 if md else 1, cats=None, miss=[0, .2, .4][v % 3], k=v,
                     density="flat" if fn.endswith("mle") else ["normal", "wide", "skew", "bimodal"][v % 4], batches=h[k % len(h)], anchored=md, tol=3 if not md else 30)
            if v % 5 == 4:                       # the same respondents among a crowd
                c.update(crowd=2500 if not md else 500, n=5)
            yield c
            if md and v < 2:
                yield dict(c, anchored=False, batches=[[1], [2, 3]], kf="A03-md-batch")
        if not md and fn != "ability_3pl_mle":
            for v in range(ctx.n(6, 40)):
                k += 1
                if fn == "ability_3pl_map":
                    continue
                yield dict(op="rising", fn=fn, seed=1000 * ctx.seed + k, n=[4, 5, 6][v % 3], factors=1, cats=None, k=v, tol=8, missing=v % 2,
                           density="flat" if fn.endswith("mle") else ["normal", "wide"][v % 2] if fn == "ability_map" else ["normal", "wide", "skew", "bimodal"][v % 4])


def run(c):
    rng = np.random.default_rng([63, c["seed"]])
    it = S.items(rng, c["fn"], c["n"], c["k"], c["factors"], c["cats"])
    opt = dict(distribution=P.density(c["density"]))
    if c["fn"].endswith("eap"):
        opt["quadrature_n"] = 15 if c["factors"] > 1 else 31
    if c["op"] == "rising":
        x = np.array(list(itertools.product([0, 1], repeat=c["n"])))
        if c["missing"]:
            x[:, c["k"] % c["n"]] = P.MISS
        whole = S.score(c["fn"], x, it, opt)
        return dict(op="rising", pats=x.tolist(), whole=S.fxs(whole), tol=c["tol"])
    x = S.patterns(rng, c["n"], 24, c["miss"], it["cats"])
    x[20] = x[19]
    anchors = np.zeros((0, c["n"]), int)
    if c["anchored"]:       # two more respondents, so that every batch shows both answers to every item
        anchors = np.array([[0] * c["n"], [1] * c["n"]])
    m = len(anchors)

    def go(rows):
        return S.fxs(S.score(c["fn"], np.r_[x[rows], anchors], it, opt)[:len(rows)])
    whole = go(np.arange(24))
    if c.get("crowd"):
        m = len(x)
        at = np.sort(rng.choice(np.arange(1, c["crowd"]), m, replace=False))
        at[-1] = c["crowd"] - 1
        y = S.patterns(rng, c["n"], c["crowd"], c["miss"], it["cats"])
        y[at] = x
        whole = S.fxs(S.score(c["fn"], y, it, opt)[at])
    scores = [go(np.array(b) - 1) for b in c["batches"]]
    return dict(op="batches", pats=x.tolist(), whole=whole, batches=c["batches"], scores=scores, tol=c["tol"])
