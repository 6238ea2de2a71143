"""Population.tla defines, in software floating point, which share of a population gives which pattern of graded or partial credit
answers; TLC checks on small tests that shares are complete and best explained by the truth. Tables with exactly these frequencies go
through the graded and partial credit routines; PopulationTrace recomputes the frequencies and compares parameters and order."""
from checks.E07 import designs
from vlib import population
SPEC = "PopulationTrace"
TIMEOUT = 400


def models(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Kind = \"%s\" NSteps = %d AGrid = {%s} BGrid = {%s}\nINVARIANTS Complete Consistent Ignorable TruthWins"
    for kind in ("graded", "credit"):
        ctx.model("PopulationMC", cfg % (kind, 2, "65536" if ctx.quick else "65536, 110000", "65536, 131072, 181072"), workers=8)


def cases(ctx):
    rng = ctx.rng
    k = 0
    for fn in ("grm_mml", "pcm_mml", "grm_mml_eap"):
        for v in range(ctx.n(14, 60) if fn != "grm_mml_eap" else ctx.n(6, 24)):
            k += 1
            kind = "credit" if fn == "pcm_mml" else "graded"
            steps = [[2, 2, 2, 2], [1, 2, 3, 1], [3, 2, 2], [2, 1, 1, 2], [1, 1, 1, 2]][v % 5]
            items = []
            for m in steps:
                b = sorted(round(rng.uniform(-1.3, 1.3), 3) for _ in range(m))
                while any(q - p < .35 for p, q in zip(b, b[1:])):
                    b = sorted(round(rng.uniform(-1.5, 1.5), 3) for _ in range(m))
                if kind == "credit" and v % 3 == 1:
                    rng.shuffle(b)          # step difficulties of the partial credit model have no order
                items.append(dict(a=round(rng.uniform(.7, 1.6), 3), b=b, kind=kind))
            dk = ["full", "mixed", "one"][k % 3] if len(steps) > 3 else "full"
            dens = ["normal", "wide", "skew", "bimodal"][v % 4]
            yield dict(op="marginal", fn=fn, items=items, designs=designs(dk, len(steps), rng), low=[0, 1, -2][k % 3], q=[31, 21, 25][v % 3],
                       bounds=[[-5, 5], [-5.5, 4.5], [-4.5, 4.5]][k % 3 if dens not in ("wide", "skew") else 0], density=dens, lut=not (fn == "grm_mml" and v % 2),
                       n=3000 if dk == "full" else 2000, atol={"grm_mml": 4000, "pcm_mml": 7000, "grm_mml_eap": 6000}[fn],
                       btol={"grm_mml": 2000, "pcm_mml": 8000, "grm_mml_eap": 4500}[fn])
    # more respondents with the same answers than narrow counters hold; many categories
    for fn in ("grm_mml", "pcm_mml"):
        for v in range(ctx.n(2, 6)):
            kind = "credit" if fn == "pcm_mml" else "graded"
            steps = [[1, 2, 1], [6, 2, 4]][v % 2]
            items = [dict(a=round(rng.uniform(.8, 1.5), 3), b=[round(q + rng.uniform(-.1, .1), 3) for q in ([.2] if m == 1 else [-1.1 + 2.2 * j / (m - 1) for j in range(m)])], kind=kind) for m in steps]
            yield dict(op="marginal", fn=fn, items=items, designs=[[1, 1, 1]], low=[0, 1][v % 2], q=31, bounds=[-5, 5], density=["normal", "wide"][(v + ctx.seed) % 2], lut=bool(ctx.seed % 2),
                       n=[450000, 20000][v % 2], atol=[4000, 7000][fn == "pcm_mml"], btol=[2000, 8000][fn == "pcm_mml"])
    # steep items whose exponents add up
    for fn in ("pcm_mml", "grm_mml"):
        for v in range(ctx.n(4, 24)):
            kind = "credit" if fn == "pcm_mml" else "graded"
            items = [dict(a=round(rng.uniform(2, 3), 3), b=sorted(round(rng.uniform(-.9, .9) + .45 * j - .45, 3) for j in range(m)), kind=kind) for m in ([3, 2, 3], [4, 2, 2])[v % 2]]
            items[1]["a"] = 1.2
            for t in items:
                for j in range(1, len(t["b"])):
                    t["b"][j] = max(t["b"][j], round(t["b"][j - 1] + .35, 3))
            yield dict(op="marginal", fn=fn, items=items, designs=[[1, 1, 1]], low=[1, 0][v % 2], q=[31, 41][v % 2], bounds=[-5, 5], density=["normal", "wide"][v % 2], lut=bool(v % 2),
                       n=6000, atol=14000, btol=4000 if fn == "grm_mml" else 8000)

    # many close steps on a steep item
    for v in range(ctx.n(3, 12)):
        items = [dict(a=round(rng.uniform(lo, lo + .4), 3), b=[round(c + g * j + rng.uniform(-.04, .04), 3) for j in range(m)], kind="credit")
                 for lo, c, g, m in ([[2.5, -1, .32, 6], [1.1, 0, .5, 2], [2.4, -.6, .4, 4]], [[2.6, -2.1, .45, 7], [1, -.4, .6, 2], [1.2, .3, .5, 1]], [[1.1, -.5, .6, 2], [2.6, -2.4, .5, 6], [2.5, -.2, .4, 3]])[(v + ctx.seed) % 3]]
        yield dict(op="marginal", fn="pcm_mml", items=items, designs=[[1, 1, 1]], low=[0, 1, -3][v % 3], q=31, bounds=[-5, 5], density=["normal", "wide"][v % 2], lut=bool(v % 2), n=9000, atol=14000, btol=8000)
    # bounds far beyond a steep easy item
    for fn in ("grm_mml", "grm_mml_eap"):
        for v in range(ctx.n(2, 8)):
            sign = [-1, 1][(v + ctx.seed) % 2]
            items = [dict(a=round(rng.uniform(3, 3.4), 3), b=sorted(round(sign * q, 3) for q in (1.7, 1.2)), kind="graded"), dict(a=1.2, b=[-.7, .4], kind="graded"), dict(a=1.4, b=[.1], kind="graded"), dict(a=1.1, b=[-.2, .6], kind="graded")]
            yield dict(op="marginal", fn=fn, items=items, designs=[[1] * 4], low=[1, 0][v % 2], q=[41, 61][v % 2], bounds=[[-7, 7], [-9, 9]][v % 2], density="normal", lut=bool(v % 2),
                       n=100000, atol=14000, btol=4500)


def run(c):
    return getattr(population, c["op"])(c)
