"""Presentation.tla says what reordering and repeating respondents does to a table and to estimates; TLC proves on all small
tables that this is what happens to anything computed from the data, and generates the histories. Every estimation routine is run
on the original and the presented table; PresentationTrace compares what it returns with what is predicted."""
from vlib import present as P, routines as R
SPEC = "PresentationTrace"
TIMEOUT = 300
run = P.run


def models(ctx):
    P.model(ctx, ["persons", "copies"], 2, 2 if ctx.quick else 3)


def configs(ctx, fns, tol, quick=2, thorough=8, latent=1300, **more):
    """Tables and options for each routine."""
    for fn in fns:
        slow = fn in R.MD or fn in ("grm_jml", "pcm_jml", "gum_mml")
        for v in range(ctx.n(2 * quick if not slow else 3, 2 * thorough if not slow else 8)):
            seed = 10 * (ctx.seed - 1) + v
            c = dict(fn=fn, seed=seed, items=6, persons=[150, 110, 190][v % 3], tol=tol.get(fn, tol[""]),
                     options=dict(max_iteration=150, quadrature_n=[21, 25, 17][v % 3]), **more)
            if fn in R.JML:
                c["items"] = 10
            if fn == "threepl_mml":
                c["persons"] *= 4                     # guessing needs many answers
            if fn in R.MD:
                c.update(persons=300, options=dict(quadrature_n=9, max_iteration=40))
            if fn in R.POLY:
                c["cats"] = [[3, 4, 2, 3, 3, 5], 3, [2, 3, 4]][v % 3]
            if fn in R.GIVEN_DISC and v % 2:
                c["disc"] = 1.4
            if fn in R.MISSING_OK and v % 2 == 1:
                c["miss"] = .08
            if fn in R.MARGINAL:
                c["density"] = [None, "wide", "bimodal"][v % 3]
            if fn in ("twopl_mml", "grm_mml") and v % 3 == 1:
                c["options"]["use_LUT"] = False
            if fn in R.WITH_ABILITY and fn not in R.MD + ["gum_mml"] and v % 4 == 3 and latent:
                c["options"].update(estimate_distribution=True, number_of_samples=7, max_iteration=80)
                c["tol"] = max(c["tol"], latent)
            if fn != "threepl_mml" and (v % 4 == 3 or (slow and v == 1)):
                c["shift"] = ["easy", "one", "hard"][(v // 4 + ctx.seed) % 3]
            if fn in ODD and v % 3 == 2:
                c.update(odd=["noise", "sharp"][(v // 3) % 2], oddat=[-1, 0, 2][(v // 3 + ctx.seed) % 3])
            yield c
        if fn in RARE and not fn.endswith("jml"):
            for v in range(ctx.n(2, 6)):
                c = dict(fn=fn, seed=700 + 10 * ctx.seed + v, items=5, persons=[400, 250][v % 2], odd="rare", oddat=[2, 0, -1][(v + ctx.seed) % 3], few=[3, 5][v % 2], tol=tol.get(fn, tol[""]), options=dict(max_iteration=150, quadrature_n=[31, 21][v % 2]), **more)
                if fn in R.POLY:
                    c["cats"] = [2, 3]
                if fn in R.GIVEN_DISC:
                    c["disc"] = [.8, 1.1][v % 2]
                yield c
        for size in [q for q in SIZES if q != "latent" or latent and fn in R.WITH_ABILITY] if fn in BIG else []:
            c = dict(fn=fn, seed=500 + 10 * ctx.seed + len(size), tol=tol.get(fn, tol[""]), options=dict(max_iteration=150, quadrature_n=21), size=size, **SIZES[size], **more)
            if fn in R.POLY:
                c["cats"] = [3, 2, 4]
            if fn in R.MISSING_OK and size == "wide" and ctx.seed % 2:
                c["miss"] = .08
            if size == "latent":
                c["options"].update(estimate_distribution=True, number_of_samples=7, max_iteration=40)
                c["tol"] = max(c["tol"], latent)
            yield c


SIZES = dict(tall=dict(items=6, persons=5300), wide=dict(items=44, persons=170), latent=dict(items=5, persons=5000))       # more respondents and more items than anywhere else
BIG = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "grm_mml", "grm_mml_eap", "pcm_mml", "rasch_jml", "onepl_jml", "twopl_jml", "rasch_conditional"]
RARE = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "grm_mml", "grm_mml_eap", "pcm_mml", "rasch_conditional"]
ODD = ["rasch_mml", "onepl_mml", "twopl_mml", "grm_mml", "pcm_mml", "twopl_mml_eap", "grm_mml_eap"]
NOCOPIES = ["twopl_mml_eap", "grm_mml_eap", "grm_jml", "pcm_jml"]


def cases(ctx):
    h = P.histories(ctx, ["persons"], ctx.n(60, 300))
    g = P.histories(ctx, ["persons", "copies"], ctx.n(200, 600))
    g = [s for s in g if sum(q["a"] == "copies" for q in s) == 1]
    k = 0
    for c in configs(ctx, R.DICH + R.POLY + R.MD, {"": 260, "gum_mml": 3000, "threepl_mml": 4000, "twopl_jml": 2000, "grm_jml": 1300, "pcm_jml": 1300}, quick=4):
        c["views"] = [h[(k + j) % len(h)] for j in range(2)]
        if c["fn"] not in NOCOPIES:
            c["views"].append(g[k % len(g)])
            if c["fn"] in R.MD + ["pcm_mml", "gum_mml"]:
                c["tol"] = max(c["tol"], 2600)        # other rounding of optimisers that stop early
        k += 3
        yield c
