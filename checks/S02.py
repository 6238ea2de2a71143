"""Synthetic states the law of every answer (category probabilities of the model, one draw per answer); TLC checks the sampling rule over a grid
of draws and the two statements of the unfolding model against each other. SyntheticTrace judges generated tables: category frequencies at
fixed abilities, pairs of items, consecutive respondents, all within six standard deviations; seeds, storage types, scalars; refusals."""
import numpy as np
from vlib.fx import fx, fxa, exa
SPEC = "SyntheticTrace"
KINDS = ["guess", "twopl", "multi2", "grm", "pcm", "gum", "grm_md"]
ASSUMES = ["frequencies are judged at six standard deviations of 20000 respondents: smaller departures from the law are not seen"]


def models(ctx):
    ctx.model("SyntheticMC", 'SPECIFICATION Spec\nCONSTANTS Kinds = {"graded", "credit", "guess", "multi", "unfold"} AGrid = {%s} TGrid = {%s} K = %d\nINVARIANTS Whole Sampling Mirror'
              % (("40000, 90000", "131072, 262144, 300000", 64) if ctx.quick else ("30000, 65536, 110000", "65536, 131072, 200000, 262144, 300000, 400000", 256)), workers=8)


def cases(ctx):
    k = 0
    for v in range(ctx.n(8, 40)):
        for kind in KINDS:
            k += 1
            yield dict(op="law", kind=kind, seed=1000 * ctx.seed + k, n=[2, 3, 1, 4][v % 4], m=ctx.n(20000, 60000), v=v, flavour=["array", "scalar", "ints", "array"][v % 4])
    for v in range(ctx.n(3, 12)):       # steep items with many steps
        for kind in KINDS:
            k += 1
            yield dict(op="law", kind=kind, seed=1000 * ctx.seed + 400 + k, n=[2, 1, 3][v % 3], m=ctx.n(8000, 30000), v=v, flavour="sharp")
    for v in range(ctx.n(6, 40)):
        for kind in KINDS:
            for what in ["seed", "scalar", "types", "quiet", "differ"] + (["name"] if kind in ("grm", "pcm", "gum", "grm_md") else []):
                k += 1
                yield dict(op=what, kind=kind, seed=1000 * ctx.seed + k, n=[1, 3, 5, 2][v % 4], m=[40, 1, 7][v % 3], v=v)
    for v in range(ctx.n(120, 800)):
        k += 1
        yield dict(op="offer", kind=["grm", "pcm", "gum", "grm", "gum"][v % 5], seed=1000 * ctx.seed + k, n=1 + v % 3, steps=1 + (v // 5) % 5, how=["good", "shuffle", "tie", "nudge", "good"][(v // 7) % 5])
    yield dict(op="offer", kind="grm_md", seed=1000 * ctx.seed + 900, n=2, steps=3, how="good")
    yield dict(op="offer", kind="grm_md", seed=1000 * ctx.seed + 901, n=2, steps=3, how="reverse", kf="S02-md-order")


def params(rng, c):
    n, kind = c["n"], c["kind"]
    ints = c.get("flavour") == "ints"
    sharp = c.get("flavour") == "sharp"
    a = rng.uniform(.4, 2, n) if not sharp else rng.uniform(2, 4.5, n)
    if c.get("flavour") == "scalar":
        a = np.full(n, a[0])
    if ints:
        a = rng.integers(1, 3, n)
    if kind in ("guess", "twopl"):
        b = rng.integers(-2, 3, n) if ints else rng.uniform(-2, 2, n)
        g = rng.uniform(0, .35, n) if kind == "guess" else np.zeros(n, int if ints else float)
        if c.get("flavour") == "scalar":
            g = np.full(n, g[0])
        return dict(b=b, a=a, g=g)
    if kind in ("multi2", "grm_md"):
        f = max(2, 3 - n)
        a = rng.integers(-1, 2, (n, f)) if ints else rng.uniform(-1, 1.5, (n, f)) * (2.5 if sharp else 1)
        if kind == "multi2":
            return dict(b=rng.integers(-2, 3, n) if ints else rng.uniform(-2, 2, n), a=a, g=rng.uniform(0, .3, n) if c["v"] % 2 else np.zeros(n))
        s = 2 + c["v"] % 3
        return dict(b=(np.arange(s)[::-1] - rng.integers(0, 3, (n, 1))) if ints else np.sort(rng.uniform(-2, 2, (n, s)), 1)[:, ::-1] - .3 * np.arange(s), a=a)
    s = 2 + c["v"] % 4 + 4 * sharp
    if kind == "gum":
        s = 1 + c["v"] % 3 + 2 * sharp
        tau = -np.sort(rng.uniform(.1, 2, (n, s)), 1)[:, ::-1] if not ints else -(np.arange(s)[::-1] + 1) * np.ones((n, 1), int)
        d = rng.integers(-1, 2, (n, 1)) if ints else rng.uniform(-1.5, 1.5, (n, 1))
        return dict(b=np.c_[d + tau, d, d - tau[:, ::-1]], a=a)
    b = (np.arange(s) - rng.integers(0, 3, (n, 1))) if ints else rng.uniform(-3, 2, (n, s)) if sharp else rng.uniform(-2, 2, (n, s))
    if kind == "grm":
        b = np.sort(b, 1) + (0 if ints else .2 * np.arange(s))
    return dict(b=b, a=a)


def spec(kind, p):
    out = []
    for i in range(len(p["b"])):
        a, b = p["a"][i], np.atleast_1d(p["b"][i])
        if kind in ("guess", "twopl"):
            out.append(dict(kind="guess", a=fx(a), b=fxa(b), c=fx(p["g"][i])))
        elif kind == "multi2":
            out.append(dict(kind="multiguess" if p["g"][i] else "multi", a=fxa(a), b=fxa(b), c=fx(p["g"][i])))
        elif kind == "grm_md":
            out.append(dict(kind="multi", a=fxa(a), b=fxa(b)))
        elif kind == "gum":
            out.append(dict(kind="folded", a=fx(a), rows=fxa(b)))
        else:
            out.append(dict(kind={"grm": "graded", "pcm": "credit"}[kind], a=fx(a), b=fxa(b)))
    return out


def make(kind, p, th, seed, a=None, g=None, name=None):
    from girth.synthetic import create_synthetic_irt_dichotomous as D, create_synthetic_irt_polytomous as P
    a = p["a"] if a is None else a
    if kind in ("guess", "twopl", "multi2"):
        g = p["g"] if g is None else g
        return D(p["b"], a, th, guessing=g, seed=seed) if np.any(g) else D(p["b"], a, th, seed=seed)
    if name is None and kind == "grm":
        return P(p["b"], a, th, seed=seed)
    return P(p["b"], a, th, model=name or kind, seed=seed)


def run(c):
    rng = np.random.default_rng([82, c["seed"]])
    kind = c["kind"]
    if c["op"] == "offer":
        s = c["steps"]
        b = np.sort(rng.uniform(-2, 2, (c["n"], s)), 1) + .1 * np.arange(s)
        if kind == "gum":
            t = np.sort(rng.uniform(.2, 2, (c["n"], s // 2)), 1)
            d = rng.uniform(-1, 1, (c["n"], 1))
            b = np.c_[d - t[:, ::-1], d, d + t] if s % 2 or s == 1 else np.sort(rng.uniform(-2, 2, (c["n"], s)), 1)
        if kind == "grm_md":
            b = b[:, ::-1]
        row = rng.integers(c["n"])
        s = b.shape[1]
        if c["how"] == "reverse":
            b = b[:, ::-1]
        if s >= 2 and c["how"] == "shuffle":
            b[row, :2] = b[row, 1::-1]
        if s >= 2 and c["how"] == "tie":
            b[row, -1] = b[row, -2]
        if s >= 5 and c["how"] == "nudge":
            b[row, 0] += .5; b[row, 1] -= .5        # the sum stays
        elif s >= 2 and c["how"] == "nudge":
            b[row, 0] -= .5
        q = dict(b=b, a=np.ones((c["n"], 2)) if kind == "grm_md" else np.ones(c["n"]))
        try:
            make(kind, q, rng.normal(0, 1, (2, 9)) if kind == "grm_md" else rng.normal(0, 1, 9), 1)
            refused = False
        except Exception:
            refused = True
        return dict(op="offer", kind=kind, b=fxa(b), refused=refused)
    p = params(rng, c)
    f = p["a"].shape[1] if np.ndim(p["a"]) == 2 else 1
    poly = kind in ("grm", "pcm", "gum", "grm_md")
    if c["op"] == "law":
        th = rng.uniform(-2.5, 2.5, (3, f))
        if c["flavour"] == "ints":
            th = rng.integers(-2, 3, (3, f))
        m = c["m"]
        big = np.repeat(th, m, axis=0)
        x = make(kind, p, big.T if np.ndim(p["a"]) == 2 else big[:, 0], c["seed"], a=p["a"][0] if c["flavour"] == "scalar" and f == 1 else None,
                 g=p["g"][0] if c["flavour"] == "scalar" and kind in ("guess", "twopl") else None)
        lo = 1 if poly else 0
        K = (2 if not poly else (p["b"].shape[1] + 1) // (2 if kind == "gum" else 1))
        x = np.asarray(x)
        y = x - lo
        cnt = [[[int((r[t * m:(t + 1) * m] == k).sum()) for k in range(K)] for t in range(3)] for r in y]
        pairs, lags = [], []
        for i in range(c["n"]):
            for t in range(3):
                z = y[i, t * m:(t + 1) * m]
                k, h = int(rng.integers(K)), int(rng.integers(K))
                for j in range(i):
                    w = y[j, t * m:(t + 1) * m]
                    pairs += [[i + 1, j + 1, t + 1, a_, b_, int(((z == a_) & (w == b_)).sum())] for a_, b_ in ((k, h), (h, k), (k, k))]
                lags += [[i + 1, t + 1, a_, b_, int(((z[:-1] == a_) & (z[1:] == b_)).sum())] for a_, b_ in ((k, (k + 1) % K), ((h + 1) % K, h))]
        return dict(op="law", items=spec(kind, p), th=fxa(th), m=m, counts=cnt, pairs=pairs, lags=lags, rows=len(x), cols=x.shape[1], integers=bool(x.dtype.kind in "iu"))
    th = rng.normal(0, 1.5, (f, c["m"]))
    if np.ndim(p["a"]) == 1:
        th = th[0]
    s = [0, 5, 123456789123456789][c["v"] % 3] + c["v"]
    T = lambda x: exa(x)
    if c["op"] == "seed":
        np.random.seed(1)
        out = [T(make(kind, p, th, s))]
        np.random.seed(2)
        return dict(op="same", name="SameSeedSameTable", tables=out + [T(make(kind, p, th, s)), T(make(kind, p, th, np.random.default_rng(s)))])
    if c["op"] == "scalar":
        v = .7 + c["v"] % 3
        if f > 1:
            return dict(op="same", name="ScalarsApplyToAllItems", tables=[T(make(kind, p, th, s, g=.25 if kind == "multi2" else None)), T(make(kind, p, th, s, g=np.full(c["n"], .25)))])
        g = .2 if kind == "guess" else None
        return dict(op="same", name="ScalarsApplyToAllItems", tables=[T(make(kind, p, th, s, a=w, g=h)) for w, h in (
            (v, g), (np.full(c["n"], v), g), (np.array([v]), None if g is None else np.array([g])), (np.full(c["n"], v), None if g is None else np.full(c["n"], g)))])
    if c["op"] == "types":
        c2 = dict(c, flavour="ints")
        p = params(rng, c2)
        th = np.round(th)
        fl = {k: v.astype(float) for k, v in p.items()}
        way = (c["seed"] // 3) % 4       # whole numbers throughout, or whole thresholds with fractional discriminations
        kw = {} if f > 1 else dict(a=[2, .75, np.array([1.4]), rng.uniform(.3, .95, c["n"])][way])
        kwf = {} if f > 1 else dict(a=kw["a"] * 1. if way != 2 else np.full(c["n"], 1.4))
        if f > 1 and way % 2:
            kw = kwf = dict(a=p["a"] * .7 + .2)
        if kind == "guess":
            kw["g"] = kwf["g"] = .3
        return dict(op="same", name="AnyStorageType", tables=[T(make(kind, fl, th, s, **kwf)), T(make(kind, p, th, s, **kw)), T(make(kind, p, th.astype(int), s, **kw)),
                                                             T(make(kind, {k: v.astype("int8") if v.dtype.kind == "i" else v for k, v in p.items()}, th, s, **kw))])
    if c["op"] == "name":
        return dict(op="same", name="ModelNamesInAnyCase", tables=[T(make(kind, p, th, s, name=n)) for n in (kind, kind.upper(), kind.title())])
    if c["op"] == "quiet":
        np.random.seed(3)
        before = np.random.get_state()[1].tolist()
        keep = {k: v.copy() for k, v in p.items()}
        tk = th.copy()
        make(kind, p, th, s); make(kind, p, th, None)
        return dict(op="quiet", ok=bool(np.random.get_state()[1].tolist() == before and all((p[k] == keep[k]).all() for k in p) and (th == tk).all()))
    big = np.zeros((f, 200)) if f > 1 else np.zeros(200)
    return dict(op="differ", tables=[T(make(kind, p, big, q)) for q in (s, s + 1, s + 2, None, None)])
