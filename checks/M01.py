"""Maximum.tla defines the marginal likelihood of item parameters (two-, three-parameter, graded, partial credit, unfolding and multidimensional
items), the marginal probabilities that thresholds have to reproduce, and posterior means of discriminations; TLC follows every climb of a
search on exact populations of small tests. MaximumTrace compares estimates with rival parameters around them, recomputing everything."""
from vlib import maximum, routines as R
SPEC = "MaximumTrace"
TIMEOUT = 400
run = maximum.observe


def models(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Kind = \"%s\" As = {%s} Bs = {%s} Cs = {%s} NItems = %d\nINVARIANTS TruthWins Decomposes SharesOfTruth Shifted\nCHECK_DEADLOCK FALSE"
    a, b = ("88304", "100000, 161072") if ctx.quick else ("50000, 100000", "91072, 161072")
    ctx.model("MaximumMC", cfg % ("guess", a, b, "131072, 144179", 2), workers=8)
    ctx.model("MaximumMC", cfg % ("unfold", a, "65536, 98304" if not ctx.quick else "75536", "98304, 163840", 2), workers=8)
    ctx.model("MaximumMC", cfg % ("multi", a, b, "98304, 163840", 2), workers=8)


def cases(ctx):
    k = 0
    rng = ctx.rng
    dens = ["normal", "wide", "skew", "bimodal"]
    for fn in ("rasch_mml", "onepl_mml", "twopl_mml", "threepl_mml", "grm_mml", "pcm_mml", "gum_mml"):
        for v in range(ctx.n(4 if fn == "rasch_mml" else 8, 40)):
            k += 1
            c = dict(fn=fn, seed=100 * ctx.seed + k, items=[5, 6, 4][v % 3] if fn in R.DICH else [4, 5][v % 2], persons=400, miss=[0, .1][v % 2], q=[21, 31, 15][v % 3],
                     bounds=[[-5, 5], [-4.5, 4.5]][k % 2], density=dens[v % 4], step=.15, stol=160, ltol=9000, rivals=10, low=[1, 0, -3][v % 3])
            if fn in ("pcm_mml", "gum_mml", "grm_mml"):
                c["persons"] = 200
            if fn == "threepl_mml":
                c["persons"] = 900
            if fn == "rasch_mml":
                c["disc"] = [1, .7, 1.6, 2][v % 4]
            if fn == "gum_mml" and c["density"] == "skew":     # see the finding M01-gum-sign
                c["density"] = "wide"
            if fn in ("twopl_mml", "grm_mml"):
                c["lut"] = bool((v // 2) % 2)
            yield c
    for fn in ("twopl_mml", "grm_mml", "pcm_mml", "twopl_mml_eap", "grm_mml_eap"):       # with an estimated density
        for v in range(ctx.n(3 if not fn.endswith("eap") else 1, 10)):
            k += 1
            c = dict(fn=fn, seed=100 * ctx.seed + k, items=[5, 6, 4][v % 3], persons=[400, 250, 700][v % 3], miss=[0, .1][v % 2], q=[21, 31, 17][v % 3], bounds=[[-4.5, 4.5], [-5, 5]][v % 2],
                     density="normal", latent=[9, 7, 11][v % 3], iter=80, step=.15, stol=160, ltol=14000, rivals=10, low=1, lut=v % 3 != 2)
            if fn.endswith("eap"):
                c.update(items=4, persons=120, q=17, hyper=12, stol=500, mtol=500)
            yield c
    for fn in ("multidimensional_twopl_mml", "multidimensional_grm_mml"):
        for v in range(ctx.n(3, 12)):
            k += 1
            yield dict(fn=fn, seed=100 * ctx.seed + k, items=6, factors=2, persons=250 if v % 2 else 400, miss=[0, .05][v % 2], q=[9, 11][v % 2], bounds=[[-4.5, 4.5], [-4, 4]][v % 2], density="normal",
                       step=.25, stol=900, ltol=12000, rivals=8, iter=60)
    for fn in ("twopl_mml_eap", "grm_mml_eap"):
        for v in range(ctx.n(4, 20)):
            k += 1
            yield dict(fn=fn, seed=100 * ctx.seed + k, items=4, persons=[120, 90, 60][v % 3], miss=[0, .1][v % 2], q=[17, 13][v % 2], bounds=[-5, 5], density=dens[v % 4], hyper=[12, 15, 10][v % 3],
                       stol=500, mtol=400, low=[1, 0, -3][v % 3])
    # the exact population of known items: nothing may come out less likely than they are
    g = lambda a, b, c: dict(a=a, b=[b], c=c, kind="guess")
    u = lambda a, b, d: dict(a=a, b=b, delta=d, kind="unfold")
    m = lambda a, *b: dict(a=a, b=list(b), kind="multi")
    r = lambda a, *b: dict(a=a, b=list(b), kind="graded")
    p = lambda a, *b: dict(a=a, b=list(b), kind="credit")
    exact = [("threepl_mml", [g(1.5, -1, .1), g(1.2, 0, .2), g(2, .5, .15), g(1, 1, 0)]), ("threepl_mml", [g(1, -.5, .25), g(1.8, .8, .05), g(1.4, -1.5, .1)]),
             ("threepl_mml", [g(2.4, 1.2, .32), g(2, .8, .31), g(2.8, .5, .325), g(1.8, 1.5, .3)]), ("threepl_mml", [g(3.4, .2, .1), g(2, -.8, .2), g(3, 1, .27)]),
             ("twopl_mml", [r(3.6, -.5), r(.9, .8), r(4.4, .3), r(2.9, -1)]), ("grm_mml", [r(3.8, -.9, .2), r(1.2, .5), r(4.5, 0, .7)]), ("pcm_mml", [p(3.4, -.6, .4), p(1, .3), p(2.8, -.2, .9)]),
             ("gum_mml", [u(2.6, [-.9, -.4], -.5), u(3.3, [-1.1], .3), u(1, [-.8, -.3], 1)]),
             ("gum_mml", [u(1, [-1, -.5], -1), u(1.3, [-1.2, -.3], 0), u(.8, [-.8, -.4], 1.2)]), ("gum_mml", [u(1.2, [-1], -.8), u(1, [-1.5], .4), u(1.4, [-.7], 1.3), u(.9, [-1.1], -1.6)]),
             ("gum_mml", [u(1.1, [-1.1, -.6], -.7), u(1.3, [-1.4], .6), u(1, [-.9, -.2], 1.4)]),
             ("multidimensional_twopl_mml", [m([1, .5], .5), m([.7, 1.2], -.5), m([1.4, .3], 0), m([.4, .9], .8), m([1.1, .6], -.8), m([1.2, 0], .3)]),
             ("multidimensional_twopl_mml", [m([.3, 1.5], 1), m([1.3, .8], -.2), m([.9, -.6], .4), m([1, .5], -.6), m([1.6, 0], .1)]),
             ("multidimensional_grm_mml", [m([1, .5], 1, -.5), m([.7, 1.2], .6), m([1.4, .3], .7, -.9), m([.6, .8], .8, -.4), m([1.2, 0], .3)]),
             ("grm_mml", [r(1.5, -1, .5), r(.8, -.3, .4, 1.2), r(2, .2), r(1.1, -.8, .9)]), ("pcm_mml", [p(1.5, -1, .5), p(.8, .4, -.3, 1), p(1.2, .2), p(1, .8, -.9)]),
             ("twopl_mml", [r(1.5, -1), r(.8, 1.2), r(2.5, .2), r(1.1, -.4), r(.5, 2)]), ("onepl_mml", [r(1.3, -1), r(1.3, 1.2), r(1.3, .2), r(1.3, 2.2)])]
    for j, (fn, items) in enumerate(exact):
        for v in range(ctx.n(2, 8)):
            c = dict(fn=fn, seed=1000 * ctx.seed + 10 * j + v, exact=items, items=len(items), persons=[4000, 1500, 9000][v % 3], q=[21, 15, 31][v % 3], bounds=[-4.5, 4.5],
                     density=["normal", "bimodal", "wide", "skew"][(v + j) % (4 if fn != "gum_mml" else 3)], step=.15, stol=160, rivals=6)
            c["ltol"] = 8 * c["persons"]
            if fn in maximum.R.MD:
                c.update(factors=2, q=[9, 11][v % 2], density="normal", stol=900, iter=60, step=.25, rivals=4, ltol=12 * c["persons"])
            yield c
    yield dict(fn="gum_mml", seed=5, exact=[u(1, [-1, -.5], -1), u(1.3, [-1.2, -.3], 0), u(.8, [-.8, -.4], 1.2)], items=3, persons=4000, q=21, bounds=[-4.5, 4.5], density="skew", step=.15, stol=160, rivals=6, ltol=9000, kf="M01-gum-sign")
    yield dict(fn="grm_mml_eap", seed=7, items=4, persons=120, miss=0, q=21, bounds=[-5, 5], density="normal", hyper=15, stol=500, mtol=1000, low=1, kf="M01-scale")
