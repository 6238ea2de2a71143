"""Presentation.tla defines increasing recodings of the answer codes of a table; TLC proves on all small tables that nothing computed
from ranks changes and generates the histories (recodings mixed with reorderings), which are replayed on every polytomous routine."""
from checks.E01 import configs
from vlib import present as P, routines as R
SPEC = "PresentationTrace"
TIMEOUT = 300
run = P.run


def models(ctx):
    P.model(ctx, ["recode", "persons"], 2, 2 if ctx.quick else 3)


def cases(ctx):
    k = 0
    h = P.histories(ctx, ["recode"], ctx.n(50, 200), length=1)
    g = P.histories(ctx, ["recode", "persons"], ctx.n(50, 200), length=3)
    g = [s for s in g if any(q["a"] == "recode" for q in s)]
    for c in configs(ctx, R.POLY + ["multidimensional_grm_mml"], {"": 260, "gum_mml": 3000, "grm_jml": 1300, "pcm_jml": 1300}, quick=6, thorough=12):
        c["views"] = [h[(k + j) % len(h)] for j in range(3)] + [g[k % len(g)]]
        if k % 2:           # codes such as registration numbers
            c["views"].insert(0, [dict(a="recode", low=[5000001, -4000000, 100001][k // 2 % 3], gaps=[1])])
        if c["fn"] in R.MD and k % 2:                 # a start which leaves the signs of the factors to the order of the respondents
            c["options"]["initial_guess"] = False
            c["views"].pop()
        k += 3
        yield c
