"""Population.tla defines, in software floating point, which share of a population gives which pattern of answers (marginally and given
the score); TLC checks on all small tests that shares are complete, consistent with unanswered items and best explained by the truth.
Tables with exactly these frequencies go through the dichotomous routines; PopulationTrace recomputes the frequencies and compares."""
from vlib import population
SPEC = "PopulationTrace"
TIMEOUT = 300


def models(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Kind = \"%s\" NSteps = %d AGrid = {%s} BGrid = {%s}\nINVARIANTS Complete Consistent Ignorable TruthWins"
    ctx.model("PopulationMC", cfg % ("graded", 1, "65536, 110000" if ctx.quick else "40000, 65536, 110000", "65536, 131072, 181072"), workers=8)


def designs(kind, n, rng):
    if kind == "full":
        return [[1] * n]
    if kind == "one":
        return [[0 if i == k else 1 for i in range(n)] for k in rng.sample(range(n), 3)]
    return [[1] * n, [1 if i % 2 else 0 for i in range(n)], [0 if i == n - 1 else 1 for i in range(n)]]


def cases(ctx):
    rng = ctx.rng
    k = 0
    for fn in ("rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap"):
        for v in range(ctx.n(12, 60) if fn != "twopl_mml_eap" else ctx.n(5, 20)):
            k += 1
            n = 4 if v % 2 and not fn.startswith("two") else 5
            a = round(rng.uniform(.6, 1.8), 3)
            items = [dict(a=a if not fn.startswith("two") else round(rng.uniform(.7, 1.7), 3), b=[round(rng.uniform(-1.4, 1.4), 3)], kind="graded") for _ in range(n)]
            dens = ["normal", "wide", "skew", "bimodal"][v % 4]
            dk = ["full", "one", "mixed"][k % 3]
            yield dict(op="marginal", fn=fn, items=items, designs=designs(dk, n, rng), low=0, q=[41, 21, 31][v % 3],
                       bounds=[[-5, 5], [-5.5, 4.5], [-4.5, 4.5]][k % 3 if dens not in ("wide", "skew") else 0], density=dens, lut=not (fn == "twopl_mml" and v % 2),
                       n=20000 if not fn.startswith("two") else 3000 if dk == "full" else 2000,
                       atol={"rasch_mml": 1, "onepl_mml": 300, "twopl_mml": 4000, "twopl_mml_eap": 5000}[fn],
                       btol={"rasch_mml": 250, "onepl_mml": 250, "twopl_mml": 2000, "twopl_mml_eap": 4500}[fn])
    # more respondents with the same answers than narrow counters hold; longer tests
    for fn in ("rasch_mml", "onepl_mml", "twopl_mml"):
        for v in range(ctx.n(2, 6)):
            two = fn == "twopl_mml"
            n = 3 if v % 2 == 0 else 7 - two
            a = round(rng.uniform(.8, 1.6), 3)
            items = [dict(a=a if not two else round(rng.uniform(.8, 1.5), 3), b=[round(rng.uniform(-1.2, 1.2), 3)], kind="graded") for _ in range(n)]
            yield dict(op="marginal", fn=fn, items=items, designs=[[1] * n], low=0, q=31, bounds=[-5, 5], density=["normal", "wide", "skew"][(v + ctx.seed) % 3], lut=bool(v % 2),
                       n=600000 if n == 3 else 30000, atol={"rasch_mml": 1, "onepl_mml": 300, "twopl_mml": 4000}[fn], btol=250 if not two else 2000)
    # bounds far beyond a steep easy item: its chance of a right answer is next to one on most of the grid
    for fn in ("twopl_mml", "onepl_mml", "rasch_mml"):
        for v in range(ctx.n(2, 6)):
            two = fn == "twopl_mml"
            sign = [-1, 1][(v + ctx.seed) % 2]
            a = round(rng.uniform(2.8, 3.2), 3)
            items = [dict(a=round(rng.uniform(3.3, 3.7), 3) if two and j == 0 else a if not two else round(rng.uniform(.9, 1.5), 3), b=[b], kind="graded") for j, b in enumerate([round(sign * rng.uniform(1.4, 1.9), 3), -.6, .2, .9])]
            yield dict(op="marginal", fn=fn, items=items, designs=[[1] * 4], low=0, q=[41, 61][v % 2], bounds=[[-7, 7], [-9, 9]][v % 2], density="normal", lut=bool((v + ctx.seed) % 2),
                       n=200000, atol={"rasch_mml": 1, "onepl_mml": 900, "twopl_mml": 14000}[fn], btol=500 if not two else 3000)
    for v in range(ctx.n(24, 120)):
        n = [3, 4, 5, 6, 7][v % 5]
        a = [1, 1.0, .5, 2, 1.37][v % 5]
        far = v % 3 == 0        # rare patterns need many respondents: their numbers are rounded
        yield dict(op="conditional", items=[dict(a=a, b=[round(rng.uniform(-1.5, 1.5) * (2.2 if far else 1) / a, 3)], kind="graded") for _ in range(n)],
                   scores=[rng.choice([0, 500])] + [rng.choice([4000, 12000, 8000]) * (15 if far else 1) for _ in range(n - 1)] + [rng.choice([0, 700])], btol=250)
    for v in range(ctx.n(4, 16)):       # one item far from all others
        n, sign = [4, 5, 6][v % 3], [-1, 1][(v + ctx.seed) % 2]
        b = [rng.uniform(-.3, .3) for _ in range(n - 1)]
        b.append(sum(b) / (n - 1) + sign * rng.uniform(4.25, 4.65) * n / (n - 1))
        rng.shuffle(b)
        yield dict(op="conditional", items=[dict(a=1, b=[round(w - sum(b) / n, 3)], kind="graded") for w in b], scores=[0] + [300000] * (n - 1) + [200], btol=500)


def run(c):
    return getattr(population, c["op"])(c)
