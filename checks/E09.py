"""Joint.tla states the likelihood equations of respondents and items (logarithmic derivatives of graded and partial credit probabilities
in software floating point) and the standardisation of abilities; TLC runs the alternation on all small tables and checks that it ends in
a mutual fixed point. Estimates of the five joint routines, with the respondents' claimed maximisers, are checked by JointTrace."""
import numpy as np
from vlib import joint, routines as R
SPEC = "JointTrace"
TIMEOUT = 600


def models(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS NItems = 3 Counts = {%s} Disc = %d Rounds = 60\nINVARIANTS Centred FixedPoint\nPROPERTY Converges"
    for d, counts in ([(65536, "1, 4")] if ctx.quick else [(65536, "1, 4"), (65536, "2, 7"), (40000, "1, 3"), (98304, "1, 6")]):
        ctx.model("JointMC", cfg % (counts, d), workers=8, timeout=800)


def steps_of(x, low):
    return [int(v[v != joint.MISS].max()) - low for v in x]


def cases(ctx):
    rng = ctx.nprng("E09")
    for fn, num, thorough in (("rasch_jml", 8, 50), ("onepl_jml", 5, 30), ("twopl_jml", 5, 30), ("grm_jml", 5, 25), ("pcm_jml", 5, 25)):
        for v in range(ctx.n(num, thorough)):
            miss = [0, .08, .15][v % 3]
            poly = fn in ("grm_jml", "pcm_jml")
            if not poly:
                m = [5, 6, 4, 7][v % 4]
                x = R.dich_table(rng, m, [150, 90, 260][v % 3] if fn != "twopl_jml" else 400, alpha=rng.uniform(.5, 1.2, m), beta=rng.uniform(-1.2, 1.2, m) + np.where(np.arange(m) == v % m, [0, -2.4, 2, 0][v % 4], 0), miss=miss)
                low, kind = 0, "graded"
            else:
                low = [0, 1, -1][v % 3]
                x = R.poly_table(rng, 5, 180, [[3, 3, 3, 3, 3], [2, 3, 4, 3, 2], [3, 2, 3, 2, 4]][v % 3], miss=miss, low=low)
                kind = "graded" if fn == "grm_jml" else "credit"
                # respondents at the top or bottom of every answered item, wherever that lies
                top = [r[r != joint.MISS].max() for r in x]
                ok = [(c != joint.MISS).any() and not all(a == joint.MISS or a == t for a, t in zip(c, top)) and not all(a in (joint.MISS, low) for a in c) for c in x.T]
                full = (x.T == np.array(top)).all(1) | (x == low).all(0)
                x = x[:, np.array(ok)]
                del full
            if v % 2:           # some who take no part
                extra = np.full((x.shape[0], 3), joint.MISS if miss else low)
                x = np.c_[x, extra]
            yield dict(op="joint", fn=fn, table=x.tolist(), low=low, kind=kind, steps=steps_of(x, low), iter=600 if not poly else 200,
                       d=DISTANCE[fn], **(dict(given=[1, .7, 1.6, 1.0][v % 4]) if fn == "rasch_jml" else {}))


    for fn in ("rasch_jml", "onepl_jml", "twopl_jml", "grm_jml", "pcm_jml"):       # longer tests, many respondents
        for v in range(ctx.n(2, 8)):
            poly = fn in ("grm_jml", "pcm_jml")
            m, p = ([(14, 200), (5, 4000)] if not poly else [(9, 150), (4, 2500)])[v % 2]
            x = R.dich_table(rng, m, p, alpha=rng.uniform(.6, 1.2, m), beta=rng.uniform(-1.2, 1.2, m), miss=[0, .08][v % 2] if m < 6 else 0) if not poly else R.poly_table(rng, m, p, 3, low=0)
            if poly:
                x = x[:, ~((x == 0).all(0) | (x == 2).all(0))]
            yield dict(op="joint", fn=fn, table=x.tolist(), low=0, kind="credit" if fn[0] == "p" else "graded", steps=steps_of(x, 0), iter=600 if not poly else 200, d=DISTANCE[fn],
                       **(dict(given=[1.4, .8][v % 2]) if fn == "rasch_jml" else {}))
    for fn in ("onepl_jml", "twopl_jml", "grm_jml", "rasch_jml"):     # sharp tests
        for v in range(ctx.n(1, 5)):
            k = v + ctx.seed
            m, p = ([25, 800], [20, 500])[k % 2]
            low = [0, 2][k % 2] if fn[0] == "g" else 0
            t = rng.normal(0, 1.2, p)
            a = np.full(m, rng.uniform(3, 3.6)) if fn != "twopl_jml" else rng.uniform(1.2, 1.8, m)
            z = a[:, None] * (t - np.linspace(-1.8, 1.8, m)[:, None])
            x = (rng.random((m, p)) < 1 / (1 + np.exp(-z))).astype(int)
            if fn[0] == "g":
                m = 8
                b = np.linspace(-1.2, .4, m)
                x = low + (2.6 * t + rng.logistic(size=(m, p)) > np.array([2.6 * b, 2.6 * b + 2])[:, :, None]).sum(0)
                x = x[:, ~((x == low).all(0) | (x == low + 2).all(0))]
            yield dict(op="joint", fn=fn, table=x.tolist(), low=low, kind="graded", steps=steps_of(x, low), iter=600 if fn[0] != "g" else 200, d=DISTANCE[fn], **(dict(given=2.9) if fn == "rasch_jml" else {}))


DISTANCE = dict(rasch_jml=160, onepl_jml=500, twopl_jml=1000, grm_jml=2600, pcm_jml=2600)


def run(c):
    return joint.observe(c)
