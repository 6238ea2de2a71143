"""Scoring.tla computes category probabilities (graded, partial credit, unfolding, multidimensional), posterior means and log-likelihoods in
software floating point; TLC checks it on every pattern of answers to small tests. ReportTrace takes complete estimation results and
recomputes shapes, blanks, search ranges, abilities of every respondent, AIC and BIC and the identification pattern from the reported parameters."""
import numpy as np
from vlib import present as P, report, routines as R
SPEC = "ReportTrace"
TIMEOUT = 300


def models(ctx):
    cfg = ("SPECIFICATION Spec\nCONSTANTS NItems = %d Slopes = {%s} Places = {%s} Floors = {%s} Even = %s\n"
           "INVARIANTS InRange Balanced Short Reflects Falls IsSlope\nPROPERTY Rises")
    ctx.model("ScoringMC", cfg % (2, "40000, 98304", "65536, 163840", "0, 13107", "TRUE"), workers=8)
    ctx.model("ScoringMC", cfg % (2, "65536, 131072", "91072, 131072", "0, 16384", "FALSE"), workers=8)
    if not ctx.quick:
        ctx.model("ScoringMC", cfg % (3, "40000, 98304", "65536, 163840", "0, 13107", "FALSE"), workers=8, timeout=800)


def cases(ctx):
    rng = ctx.nprng("E10")
    k = 0
    for fn in R.DICH + R.POLY + R.MD:
        heavy = fn in R.MD or fn in ("gum_mml", "pcm_mml")
        for v in range(ctx.n(8 if fn in R.WITH_ABILITY and not heavy else 4, 40 if not heavy else 20)):
            k += 1
            miss = [0, .1, .2][k % 3] if fn != "rasch_conditional" else 0
            c = dict(op="report", fn=fn, tol=60, ltol=3000)
            n = [4, 5, 6][v % 3]
            if fn in R.DICH:
                x = R.dich_table(rng, n, 110, alpha=rng.uniform(.7, 1.6, n), beta=rng.uniform(-1.5, 1.5, n), miss=miss)
            elif fn in R.MD:
                n, c["factors"] = 6, 2
                two = fn == "multidimensional_twopl_mml"
                x = R.md_table(rng, n, 300 if two else 200, 2 if two else 3)
                if miss:
                    x[rng.random(x.shape) < .06] = P.MISS
            elif fn == "gum_mml":
                x = P.gum_table(rng, 4, 120, miss)
            else:
                x = R.poly_table(rng, n, 110, [[3, 3, 2, 4, 3, 2], [2, 4, 3, 2, 3, 3], [3, 3, 3, 3, 3, 3]][v % 3][:n], miss=miss, low=[1, 0, -2][v % 3])
            c["table"] = x.tolist()
            c["ltol"] = 30 * x.shape[1]
            o = {}
            if fn in R.MARGINAL or fn in R.MD:
                if v % 2:
                    o["quadrature_n"] = [21, 31, 15][v % 3] if fn not in R.MD else 9
                    o["quadrature_bounds"] = [[-4, 4], [-5, 5], [-4.5, 4]][v % 3]
                elif fn in R.MD:
                    o["quadrature_n"] = 11
                c["density"] = ["normal", "wide", "skew", "bimodal"][v % 4]
                if fn in R.WITH_ABILITY and fn not in R.MD and v % 4 == 2:
                    o["estimate_distribution"], o["number_of_samples"] = True, [9, 7, 11][k % 3]
                    c["tol"] = 60
                    o["quadrature_bounds"], o["quadrature_n"] = [-5, 5], 31
                if v % 4 == 3:
                    o["max_iteration"] = [1, 2, 3][k % 3]
                if fn in R.MD and v % 2:
                    o["initial_guess"] = False
                if fn in ("twopl_mml", "grm_mml", "onepl_mml", "rasch_mml") and v % 5 == 1:
                    o["use_LUT"] = False
            elif v % 2 and fn != "rasch_conditional":
                o["max_iteration"] = [3, 40][k % 2]
            if fn in R.GIVEN_DISC:
                c["disc"] = [1, .8, 1.5][v % 3]
            if fn == "gum_mml":
                o.setdefault("max_iteration", 25)
                c["sign"] = [[0, 1], [3, 1], [0, -1], [2, -1]][v % 4]
            c["options"] = o
            yield c


    for fn in ("twopl_mml", "grm_mml", "twopl_mml_eap", "grm_mml_eap", "pcm_mml"):      # longer tests, many respondents
        for v in range(ctx.n(2, 6)):
            k += 1
            n, p = [(24, 50), (4, 2500)][v % 2]
            miss = [0, .15][k % 2]
            x = R.dich_table(rng, n, p, alpha=rng.uniform(.7, 1.6, n), beta=rng.uniform(-1.2, 1.2, n), miss=miss) if fn in R.DICH else R.poly_table(rng, n, p, 3, miss=miss, low=k % 2)
            yield dict(op="report", fn=fn, table=x.tolist(), options=dict(max_iteration=20), density=["normal", "wide"][k % 2], tol=120, ltol=30 * p * max(1, n // 6))
        n, p = [(130, 40), (100, 60)][ctx.seed % 2]
        k += 1
        x = R.dich_table(rng, n, p, alpha=rng.uniform(.5, 1.1, n), beta=rng.uniform(-1.2, 1.2, n), miss=0) if fn in R.DICH else R.poly_table(rng, n, p, 3, miss=0, low=k % 2)
        yield dict(op="report", fn=fn, table=x.tolist(), options=dict(max_iteration=3, quadrature_n=31), density="normal", tol=200, ltol=30 * p * (n // 6))


def run(c):
    return report.observe(c)
