"""Presentation.tla defines the reversed scale and what it does to difficulties, thresholds, discriminations and abilities; TLC proves
on all small tables that the prediction is what reversing does, twice is no change, and generates histories for all routines concerned."""
from checks.E01 import configs
from vlib import present as P, routines as R
SPEC = "PresentationTrace"
TIMEOUT = 300
run = P.run
FNS = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "rasch_jml", "onepl_jml", "twopl_jml", "rasch_conditional",
       "grm_mml", "grm_mml_eap", "pcm_mml", "grm_jml", "pcm_jml", "multidimensional_twopl_mml", "multidimensional_grm_mml"]


def models(ctx):
    P.model(ctx, ["mirror", "persons", "blanks"], 2, 2 if ctx.quick else 3)


def cases(ctx):
    k = 0
    h = [[dict(a="mirror")]] + [s for s in P.histories(ctx, ["mirror", "items", "persons"], ctx.n(400, 900), length=2)
                                if sum(q["a"] == "mirror" for q in s) == 1]
    m = [[dict(a="mirror")]] + [s for s in P.histories(ctx, ["mirror", "persons"], ctx.n(100, 300), length=2)
                                if sum(q["a"] == "mirror" for q in s) == 1]
    for c in configs(ctx, FNS, {"": 2000, "pcm_mml": 3300, "pcm_jml": 3300, "grm_jml": 3300, "twopl_jml": 3300, "multidimensional_twopl_mml": 3300, "multidimensional_grm_mml": 3300}, quick=4, latent=0):
        q = m if c["fn"] in R.MD else h
        c["views"] = [q[0], q[1 + k % (len(q) - 1)]]
        k += 3
        yield c
    # an item that only the very weakest fail, and nobody else
    for fn in ("twopl_mml", "grm_mml", "rasch_mml", "onepl_mml", "twopl_mml_eap", "grm_mml_eap"):
        for v in range(ctx.n(3, 8)):
            yield dict(fn=fn, seed=900 + 10 * ctx.seed + v, items=5, persons=[1000, 600, 2000][v % 3], steep=[-2.6, -2, -1.6][(v + ctx.seed) % 3], cats=[2, 3, 2, 4, 2] if fn in R.POLY else None,
                       options=dict(quadrature_bounds=(-6, 6), quadrature_n=[41, 31][v % 2]), tol=2000, views=[h[0], h[1 + (k + v) % (len(h) - 1)]])
