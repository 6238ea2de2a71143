"""Association defines the bivariate normal distribution by the derivative in its correlation, and the likelihood equations of both
correlations; TLC checks them against closed forms over a grid. AssociationTrace puts every correlation of the real code into its likelihood
equation (the derivative changes sign there), compares evenly split tables with the closed form, and checks relabelling, reversal,
reordering, rescaling and answers out of range."""
import numpy as np
from vlib.fx import fx, fxa, mat
SPEC = "AssociationTrace"
ASSUMES = ["correlations beyond 0.9 are checked by closed form and invariance only, not through the likelihood equation"]


def models(ctx):
    ctx.model("AssociationMC", "SPECIFICATION Spec\nCONSTANTS Grid = {%s} Vals = {} N = 1\nINVARIANTS Frechet Exchange Reflect Quadrant Rising EvenScore Sines"
              % ("1,3,5,6,8" if ctx.quick else "1,2,3,4,5,6,7,8,9"), workers=8)


def cases(ctx):
    k = 0
    for half in ctx.n([10, 25, 60], [4, 7, 10, 18, 25, 60, 200]):
        for a in (range(0, half + 1, max(1, half // 10)) if ctx.quick else range(half + 1)):
            k += 1
            yield dict(op="even", agree=a, half=half, seed=1000 * ctx.seed + k, v=k)
    for v in range(ctx.n(60, 400)):
        k += 1
        yield dict(op="score", seed=1000 * ctx.seed + k, n=[200, 400, 120][v % 3], cats=[[2, 3, 4, 5][v % 4], [2, 3, 4, 5][(v // 4) % 4]], r=[-.75, -.4, 0, .3, .6, .8][v % 6], v=v)
    for v in range(ctx.n(8, 40)):
        k += 1
        yield dict(op="score", seed=1000 * ctx.seed + k, n=[6000, 1500, 800][v % 3], cats=[[2, 5, 9][v % 3], [3, 7, 2][v % 3]], r=[-.6, .2, .7, .5][v % 4], v=v)
    for v in range(ctx.n(6, 40)):
        k += 1
        yield dict(op="serialscore", seed=1000 * ctx.seed + k, n=[700, 400, 550][v % 3], cats=[2, 12, 5][v % 3], r=[-.6, .2, .7, .5][v % 4], v=v)
    for v in range(ctx.n(60, 300)):
        k += 1
        yield dict(op="serialscore", seed=1000 * ctx.seed + k, n=[40, 80, 25][v % 3], cats=[2, 3, 4, 5, 7][v % 5], r=[-.7, -.4, 0, .3, .6, .8][v % 6], v=v)
    for v in range(ctx.n(24, 100)):     # categories that a single respondent chose
        k += 1
        yield dict(op=["score", "serialscore"][v % 2], seed=1000 * ctx.seed + k, n=[60, 200, 120][v % 3], cats=[[3, 4, 5][v % 3], [3, 4, 4][v % 3]] if v % 2 == 0 else [3, 5, 4][v % 3], r=[-.5, 0, .5, .7][(v // 2) % 4], v=v // 2, lone=1 + v % 2)
    for v in range(ctx.n(16, 60)):     # a strong relation and respondents who contradict it
        k += 1
        yield dict(op=["serialscore", "preverse"][v % 2], seed=1000 * ctx.seed + k, n=[500, 900, 700][v % 3], cats=[4, 3, 2, 5][(v // 2) % 4], r=[.87, .8, -.85, .88][(v // 4) % 4], v=v // 2, odd=[[-5, 1], [5, 0], [-6, .5], [5, 1]][(v // 2) % 4])
    for v in range(ctx.n(9, 40)):      # nearly perfect relations
        k += 1
        yield dict(op="serialscore", seed=1000 * ctx.seed + k, n=[500, 900, 700][v % 3], cats=[4, 3, 2, 5][v % 4], r=[.965, -.96, .93, .972, -.945][v % 5], v=v, d=400)
    yield dict(op="corner", seed=1, n=3000, kf="P02-corner")
    for op in ["labels", "outside", "reverse", "reorder", "plabels", "pscale", "preverse", "porder"]:
        for v in range(ctx.n(20, 120)):
            k += 1
            yield dict(op=op, seed=1000 * ctx.seed + k, n=[150, 300][v % 2], cats=[3, 4, 2, 5][v % 4], r=[-.75, -.3, .1, .5, .85, -.1][v % 6], v=v)


def cut(rng, z, cats, lone=0):
    if lone:        # the last category, or first and last, with one respondent each
        y = cut(rng, z, cats - lone)
        y[np.argmax(z)] = cats - lone
        if lone == 2:
            y[np.argmin(z)] = -1
        return y + (lone == 2)
    s = rng.dirichlet(np.full(cats, 6.))
    return np.searchsorted(np.quantile(z, np.cumsum(s)[:-1]), z, side="right")


def poly(x, start, stop, procs=1):
    import girth.common as gc
    return gc.polychoric_correlation(x, start, stop, num_processors=procs)


def run(c):
    import girth.common as gc
    from scipy.stats import norm
    rng = np.random.default_rng([73, c["seed"]])
    if c["op"] == "even":
        a, b = c["agree"], c["half"] - c["agree"]
        lo, hi = [(1, 2), (0, 1), (1, 5), (-1, 3)][c["v"] % 4]
        x = np.repeat([[lo, lo], [lo, hi], [hi, lo], [hi, hi]], [a, b, b, a], axis=0).T
        x = x[:, rng.permutation(x.shape[1])]
        m = poly(x, lo, hi)
        return dict(op="even", agree=a, half=c["half"], rho=fx(m[0, 1]), tol=40)
    if c["op"] == "corner":
        z = np.random.default_rng(5).multivariate_normal([0, 0], [[1, .92], [.92, 1]], c["n"]).T
        x = np.searchsorted([-2., 0, 2], z)
        x[:, 0] = 3, 0
        y, w = x.copy(), x.copy()
        y[0], w[1] = 3 - y[0], 3 - w[1]
        return dict(op="opposite", rho=fx(poly(x, 0, 3)[0, 1]), rhos=[fx(poly(y, 0, 3)[0, 1]), fx(poly(w, 0, 3)[0, 1])], tol=300)
    z = rng.multivariate_normal([0, 0], [[1, c["r"]], [c["r"], 1]], c["n"]).T
    if "odd" in c:      # a value with the answer nobody near it gives
        z[0, :2] = c["odd"][0], 0
        z[1, 0] = (2 * c["odd"][1] - 1) * 2.5 * np.sign(c["r"])
    if c["op"] == "score":
        x = np.array([cut(rng, z[i], c["cats"][i], min(c.get("lone", 0), c["cats"][i] - 1)) for i in range(2)]) + 1
        hi = max(c["cats"]) + (c["v"] % 3 == 0)
        if c["v"] % 2:      # answers out of range belong to nobody
            x[0, ::13] = 99
            x[1, 1::17] = -1
        m = poly(x, 1, hi)
        ok = ((x >= 1) & (x <= hi)).all(0)
        y = x[:, ok]
        u1, u2 = np.unique(y[0]), np.unique(y[1])
        n = np.array([[((y[0] == i) & (y[1] == j)).sum() for j in u2] for i in u1])
        t = [norm.ppf(np.cumsum(s)[:-1] / n.sum()) for s in (n.sum(1), n.sum(0))]
        return dict(op="score", n=n.tolist(), t1=fxa(t[0]), t2=fxa(t[1]), rho=fx(m[0, 1]), d=1000)
    if c["op"] == "serialscore":
        y = cut(rng, z[1 if "odd" in c else 0], c["cats"], c.get("lone", 0))
        x = z[0 if "odd" in c else 1] * [1, 5, .1][c["v"] % 3] + [0, 100, -3][c["v"] % 3]
        u, cnt = np.unique(y, return_counts=True)
        lab = np.sort(rng.choice(np.arange(-5, 30), len(u), replace=False))
        idx = np.searchsorted(u, y)
        rho = gc.polyserial_correlation(x, lab[idx] if c["v"] % 2 else lab[idx].astype(float))
        zz = (x - x.mean()) / x.std(ddof=1)
        return dict(op="serialscore", z=fxa(zz), y=(idx + 1).tolist(), t=fxa(norm.ppf(np.cumsum(cnt)[:-1] / cnt.sum())), counts=cnt.tolist(), rho=fx(rho), d=c.get("d", 1000))
    C = c["cats"]
    tol = 40
    if c["op"] in ("labels", "outside", "reverse"):
        x = np.array([cut(rng, z[i], C) for i in range(2)])
        r = poly(x, 0, C - 1)[0, 1]
        tol = 40 if abs(r) < .946 else 1000       # a nearly empty corner leaves the likelihood flat
        if c["op"] == "labels":
            out = [poly(x + s, s, s + C - 1 + w)[0, 1] for s, w in ((1, 0), (-3, 0), (7, 2))] + [poly(2 * x, 0, 2 * C - 2)[0, 1], poly(x.astype(float), 0, C - 1)[0, 1], poly(x.astype("int8"), 0, C - 1)[0, 1]]
            lab = np.sort(rng.choice(np.arange(0, 9), C, replace=False))
            out.append(poly(lab[x], 0, 9)[0, 1])
            return dict(op="same", name="IgnoresTheLabels", rho=fx(r), rhos=fxa(out), tol=tol)
        if c["op"] == "outside":
            extra = rng.integers(0, C, (2, 40))
            which = rng.integers(0, 3, 40)
            extra[0, which != 1] = rng.choice([-7, C, 99])
            extra[1, which != 0] = rng.choice([-1, C + 3])
            w = np.c_[x, extra][:, rng.permutation(c["n"] + 40)]
            return dict(op="same", name="IgnoresAnswersOutOfRange", rho=fx(r), rhos=[fx(poly(w, 0, C - 1, p)[0, 1]) for p in (1, 2)], tol=tol)
        y = x.copy(); y[0] = C - 1 - y[0]
        w = x.copy(); w[1] = C - 1 - w[1]
        return dict(op="opposite", rho=fx(r), rhos=[fx(poly(y, 0, C - 1)[0, 1]), fx(poly(w, 0, C - 1)[1, 0])], tol=tol)
    if c["op"] == "reorder":
        I = 3 + c["v"] % 3
        f = rng.normal(0, 1, c["n"])
        x = np.array([cut(rng, f * rng.uniform(-1, 1) + rng.normal(0, .7, c["n"]), C) for _ in range(I)])
        p = rng.permutation(I)
        q = rng.permutation(c["n"])
        procs = 1 + c["v"] % 3
        return dict(op="reorder", m=mat(poly(x, 0, C - 1)), m2=mat(poly(x[p][:, q], 0, C - 1, procs)), perm=(p + 1).tolist(), tol=tol)
    y, x = cut(rng, z[0], C), z[1]
    if "odd" in c:
        y, x = cut(rng, z[1], C), z[0]
    P = gc.polyserial_correlation
    r = fx(P(x, y))
    if c["op"] == "plabels":
        lab = np.sort(rng.choice(np.arange(-20, 40), C, replace=False))
        return dict(op="same", name="IgnoresTheLabels", rho=r, rhos=[fx(P(x, l)) for l in (lab[y], lab[y] / 4., y + 1, y.astype("int8"), -4 + y)], tol=tol)
    if c["op"] == "pscale":
        return dict(op="same", name="IgnoresTheScale", rho=r, rhos=[fx(P(v, y)) for v in (3 * x, x + 50, x * .01 - 2, 1000 * x + 7)], tol=tol)
    if c["op"] == "preverse":
        return dict(op="opposite", rho=r, rhos=[fx(P(-x, y)), fx(P(x, C - y)), fx(P(5 - 2 * x, y))], tol=tol)
    q = rng.permutation(c["n"])
    return dict(op="same", name="IgnoresTheOrder", rho=r, rhos=[fx(P(x[q], y[q])), fx(P(x[::-1], y[::-1]))], tol=tol)
