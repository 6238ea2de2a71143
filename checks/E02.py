"""Presentation.tla says what reordering items does to a table and to estimates; TLC proves the prediction on all small tables and
generates the histories, which are replayed on every estimation routine. For the multidimensional routines only items outside the
identification pattern are moved."""
from checks.E01 import configs
from vlib import present as P, routines as R
SPEC = "PresentationTrace"
TIMEOUT = 300
run = P.run


TOL = {"": 700, "gum_mml": 9000, "threepl_mml": 8000, "pcm_mml": 4000, "twopl_mml": 1300, "rasch_conditional": 1500, "rasch_mml": 130, "onepl_mml": 130,
       "rasch_jml": 130, "onepl_jml": 130, "multidimensional_twopl_mml": 9000, "multidimensional_grm_mml": 9000}


def models(ctx):
    P.model(ctx, ["items", "persons"], 2 if ctx.quick else 3, 2)


def cases(ctx):
    k = 0
    h = P.histories(ctx, ["items"], ctx.n(80, 400))
    m = P.histories(ctx, ["swaps"], ctx.n(40, 100), items=4)
    for c in configs(ctx, R.DICH + R.POLY + R.MD, TOL, quick=4, latent=10000):
        c["views"] = [(m if c["fn"] in R.MD else h)[(k + j) % (len(m) if c["fn"] in R.MD else len(h))] for j in range(3 if c["fn"] not in R.MD else 2)]
        k += 3
        yield c
