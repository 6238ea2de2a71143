"""Presentation.tla defines respondents without answers, tests shortened to the answered items and tables that agree after tagging;
TLC proves on all small tables that blank respondents change nothing computed from the data. Replayed on every routine that takes
missing answers, on the ability routines with every respondent's own shorter test, and with different junk in the tagged cells."""
import numpy as np
from checks.E01 import configs
from checks import E07, E08, E09
from vlib import calls, joint, population, present as P, routines as R
from vlib.fx import fx
SPEC = "PresentationTrace"
TIMEOUT = 600
MISS = P.MISS


def models(ctx):
    P.model(ctx, ["blanks", "persons"], 2, 2 if ctx.quick else 3)


def cases(ctx):
    k = 0
    h = P.histories(ctx, ["blanks"], ctx.n(30, 60), length=1)
    g = [s for s in P.histories(ctx, ["blanks", "persons"], ctx.n(60, 200), length=3) if any(q["a"] == "blanks" for q in s)]
    for c in configs(ctx, R.MISSING_OK, {"": 500, "gum_mml": 6500, "grm_jml": 2000, "pcm_jml": 2000, "twopl_jml": 1300, "pcm_mml": 1300, "threepl_mml": 10000,
                                         "multidimensional_twopl_mml": 1300, "multidimensional_grm_mml": 1300}, quick=4, latent=20000):
        c["op"] = "present"
        c["views"] = [h[(k + j) % len(h)] for j in range(2)] + [g[k % len(g)]]
        k += 3
        yield c
    for fn in R.ABILITY + ["md_eap", "md_map"]:
        for v in range(ctx.n(6, 30)):
            yield dict(op="shorter", fn=fn, seed=100 * ctx.seed + v, items=[4, 7, 2, 12, 25, 5][v % 6], persons=30,
                       density=["normal", "skew", "wide"][v % 3], scalar=v % 4 == 3 and "3pl" not in fn and not fn.startswith("md_"))
    for fn in R.MISSING_OK + R.ABILITY + ["classical_test_statistics"]:
        slow = fn in R.MD or fn in ("grm_jml", "pcm_jml", "gum_mml", "threepl_mml")
        for v in range(ctx.n(2 if not slow else 1, 5)):
            yield dict(op="tagged", fn=fn, seed=100 * ctx.seed + v, dts=[["int64", "int8", "int32"], ["int16", "uint8", "int64"]][v % 2])
    # joint estimates and exact populations with missing answers satisfy their own equations (Joint.tla, Population.tla)
    for c in E09.cases(ctx):
        if any(MISS in r for r in c["table"]):
            yield dict(c, spec="JointTrace", area="joint")
    for mod in (E07, E08):
        for c in mod.cases(ctx):
            if c["op"] == "marginal" and len(c["designs"]) > 1:
                yield dict(c, spec="PopulationTrace", area="population")


def ability(fn, x, b, a, g, c):
    import girth
    kw = {} if fn.endswith("mle") else dict(options=dict(distribution=P.density(c.get("density"))))
    if fn == "md_eap":
        return girth.multidimensional_ability_eap(x, b, a, options=dict(quadrature_n=15, distribution=P.density(c.get("density")))).T
    if fn == "md_map":
        return girth.multidimensional_ability_map(x, b, a, options=dict(distribution=P.density(c.get("density")))).T
    args = [x, b, a] + ([g] if "3pl" in fn else [])
    return np.asarray(getattr(girth, fn)(*args, **kw)).reshape(-1, 1)


def shorter(c):
    rng = np.random.default_rng([23, c["seed"]])
    n, p, fn = c["items"], c["persons"], c["fn"]
    b = rng.uniform(-1.5, 1.5, n)
    md = fn.startswith("md_")
    a = np.c_[rng.uniform(.5, 1.5, n), rng.uniform(-.6, 1.2, n)] if md else \
        (np.full(n, 1.3) if c["scalar"] else rng.uniform(.5, 2.2, n))
    g = rng.uniform(0, .3, n)
    x = R.dich_table(rng, n, p, alpha=np.full(n, 1.2), beta=b)
    x[rng.random(x.shape) < .35] = MISS
    x[:, 0] = MISS
    x[0, 0] = 1
    x[:, 1], x[:, 2] = 1, 0
    al = 1.3 if c["scalar"] else a
    full = ability(fn, x.copy(), b, al, g, c)
    short, kept = [], []
    for q in range(p):
        k = np.flatnonzero(x[:, q] != MISS)
        kept.append([int(i) + 1 for i in k])
        if not k.size:                     # nobody's test has no item; p answers nothing at all
            k = np.arange(0)
        if md:
            # the scorer reads an item's categories off the batch: two respondents who give every answer stand in
            y = np.c_[x[k, q], np.zeros(k.size, int), np.ones(k.size, int)].astype(x.dtype)
            short.append(ability(fn, y, b[k], a[k], g[k], c)[0] if k.size else full[q])
        else:
            short.append(ability(fn, x[k][:, q:q + 1].copy(), b[k], al if c["scalar"] else a[k], g[k], c)[0] if k.size else full[q])
    return dict(x=x.tolist(), kept=kept, ability=[[fx(v) for v in r] for r in full],
                short=[[fx(v) for v in r] for r in short], tol={"md_eap": 20, "md_map": 2000}.get(fn, 40))


def tagged(c):
    import girth
    rng = np.random.default_rng([29, c["seed"]])
    fn = c["fn"]
    dich = fn in R.DICH + R.ABILITY or fn.startswith("multidimensional_twopl")
    n = 6
    clean = (R.md_table(rng, n, 300, 2 if dich else 3) if fn in R.MD else R.dich_table(rng, n, 90) if dich else R.poly_table(rng, n, 90, 3, low=0))
    valid = [0, 1] if dich else [0, 1, 2]
    hole = rng.random(clean.shape) < .1
    res, tags = [], []
    for q, dt in enumerate(c["dts"]):
        junk = {"int8": [-7, 99, 5], "uint8": [9, 255, 77], "int16": [-30000, 3], "int32": [7, -1, MISS, 99999], "int64": [3, MISS, -2]}[dt]
        x = np.where(hole, rng.choice(junk, clean.shape), clean).astype(dt)
        t = girth.tag_missing_data(x, valid)
        tags.append(np.asarray(t).astype(int).tolist())
        if fn in R.ABILITY:
            r = ability(fn, t, np.linspace(-1, 1, n), np.linspace(.8, 1.6, n), np.full(n, .1), {}).ravel()
        elif fn == "classical_test_statistics":
            r = np.concatenate([w.ravel() for w in calls.numbers(girth.classical_test_statistics(t))])
        else:
            r = np.concatenate([w.ravel() for w in calls.numbers({k: v for k, v in R.call(fn, t, dict(max_iteration=4, quadrature_n=9 if fn in R.MD else 21)).items() if k != "LatentPDF"})])
        res.append([fx(v) for v in r])
    x = np.where(hole, MISS, clean)
    return dict(x=x.tolist(), tagged=tags, res=res, tol=30)


def run(c):
    if c.get("area") == "joint":
        return joint.observe(c)
    if c.get("area") == "population":
        return population.marginal(c)
    if c["op"] == "present":
        return P.run(c)
    return dict(globals()[c["op"]](c), op=c["op"])
