"""Lookup.tla defines the marginal probability in software floating point; TLC checks that bisection on it keeps its bracket, inverts it,
is monotone and ends at the right side. LookupTrace evaluates the marginal probability at the difficulties create_beta_LUT returns
on both sides of every answer, for every density, quadrature and grid, at both ends of the discrimination grid and between."""
import numpy as np
from vlib import present as P
from vlib.fx import fx, fl
SPEC = "LookupTrace"


def models(ctx):
    ctx.model("LookupMC", "SPECIFICATION Spec\nCONSTANTS Shares = {%s} Alphas = {%s} Skews = {0, 1}\nINVARIANTS Bracket Ends Correct Monotone\nPROPERTY Finishes"
              % (",".join(map(str, [0, 300, 9000, 32768, 50000, 65000, 65536] if ctx.quick else range(0, 65537, 2048))),
                 ",".join(map(str, [16384, 65536, 160000] if ctx.quick else [16384, 40000, 65536, 110000, 160000, 300000]))), workers=8)


def cases(ctx):
    rng = ctx.rng
    for v in range(ctx.n(40, 300)):
        grid = [(.15, 5.05, 500), (.3, 3.0, 200), (.5, 2.5, 120), (.2, 4.0, 381)][v % 4]
        beta = [(-6, 6, 500), (-4, 4, 300), (-5, 3, 400)][v % 3]
        q = [41, 21, 61][v % 3]
        step = (grid[1] - grid[0]) / (grid[2] - 1)
        al = [grid[0], grid[1], grid[0] + step * rng.randrange(1, grid[2] - 1)] + [round(rng.uniform(grid[0], grid[1]), 4) for _ in range(3)]
        yield dict(op="lookup", grid=grid, beta=beta, q=q, bounds=[[-5, 5], [-4, 4], [-4.5, 5.5], [-1.5, 1.5], [-5, 5], [-1, 2.5]][v // 2 % 6], density=["normal", "wide", "skew", "bimodal"][v % 4],
                   alphas=al, seed=100 * ctx.seed + v, array=v % 2 == 0)
    # shares that no difficulty in the range can produce
    for v in range(12):
        yield dict(op="lookup", grid=(.15, 5.05, 500), beta=[(-6, 6, 500), (-3, 3, 300)][v % 2], q=41, bounds=[-5, 5], density=["normal", "wide"][v % 2],
                   alphas=[.15, .2, .3, .25], seed=7 + v, array=v % 2 == 0, beyond=True, kf="L02-range")


def run(c):
    import girth
    rng = np.random.default_rng([43, c["seed"]])
    den = P.density(c["density"])
    t, w = np.polynomial.legendre.leggauss(c["q"])
    lo, hi = c["bounds"]
    t, w = (hi - lo) / 2 * (t + 1) + lo, w * (hi - lo) / 2
    wd = den(t) * w
    f = girth.create_beta_LUT(tuple(c["grid"]), tuple(c["beta"]), dict(distribution=den, quadrature_n=c["q"], quadrature_bounds=tuple(c["bounds"])))
    evs = []
    M = lambda a, b: float((wd / (1 + np.exp(-a * (t - b)))).sum())
    for a in c["alphas"]:
        top, bot = M(a, c["beta"][0]), M(a, c["beta"][1])
        if c.get("beyond"):
            s = sorted([bot * .5, bot * .9, (1 + top) / 2, top + .9 * (min(1, 1 - 1e-4) - top)])
        else:
            s = sorted([0.0, 1.0] + [float(v) for v in rng.uniform(bot + 1e-3 * (top - bot), top - 1e-3 * (top - bot), 8)] + [float(rng.integers(1, 40) / 41)])
            # between two grid discriminations: in the reach of both (beyond it is what the finding is about)
            st = (c["grid"][1] - c["grid"][0]) / (c["grid"][2] - 1)
            near = [max(c["grid"][0], a - st), a, min(c["grid"][1], a + st)]
            bot, top = max(M(q, c["beta"][1]) for q in near), min(M(q, c["beta"][0]) for q in near)
            s = [v for v in s if v in (0.0, 1.0) or bot + 2e-3 < v < top - 2e-3]
        b = np.asarray(f(a, np.array(s))) if c["array"] else np.array([float(f(a, v)) for v in s])
        rs = []
        if not c.get("beyond") and max(bot * 1.3, 1e-6) < .004:
            rs = np.exp(rng.uniform(np.log(max(bot * 1.3, 1e-6)), np.log(.004), 4))
        rb = np.asarray(f(a, rs)) if c["array"] and len(rs) else [float(f(a, v)) for v in rs]
        evs.append(dict(a=fx(a), s=[fx(v) for v in s], b=[fx(v) for v in np.atleast_1d(b)], rs=[fl(v) for v in rs], rb=[fx(v) for v in rb]))
    # one event per discrimination, judged together
    return dict(op="lookups", th=[fx(v) for v in t], w=[fl(v) for v in wd], lo=fx(c["beta"][0]), hi=fx(c["beta"][1]), d=fx(.03), eps=40, at=evs)
