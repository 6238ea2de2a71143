"""Presentations of a table (see spec/Presentation.tla) carried out on the real routines."""
import numpy as np
from . import routines as R
from .fx import fx, ex

MISS = -99999


def src(h, n):
    k = np.arange(1, n + 1)
    if h["how"] == "reverse":
        s = n + 1 - k
    elif h["how"] == "rotate":
        s = (k - 1 + h["k"]) % n + 1
    elif h["how"] == "swap":
        a, b = h["k"] % n + 1, h["j"] % n + 1
        s = np.where(k == a, b, np.where(k == b, a, k))
    elif h["how"] == "deal":
        half = (n + 1) // 2
        s = np.where(k % 2 == 1, (k + 1) // 2, half + k // 2)
    else:
        s = k
    return s - 1


def step(x, h):
    a = h["a"]
    if a == "persons":
        return x[:, src(h, x.shape[1])]
    if a == "items":
        return x[src(h, x.shape[0])]
    if a == "copies":
        return np.tile(x, (1, h["k"]))
    if a == "blanks":
        q = h["at"] % (x.shape[1] + 1)
        return np.c_[x[:, :q], np.full((x.shape[0], h["k"]), MISS, dtype=x.dtype), x[:, q:]]
    v = np.unique(x[x != MISS])
    if a == "recode":
        c = h["low"] + np.concatenate([[0], np.cumsum([h["gaps"][q % len(h["gaps"])] for q in range(v.size - 1)])]).astype(int)
        y = x.copy()
        for o, n in zip(v, c):
            y[x == o] = n
        return y
    if a == "mirror":
        return np.where(x == MISS, MISS, v[0] + v[-1] - x)
    raise KeyError(a)


def present(x, steps):
    for h in steps:
        x = step(x, h)
    return x


def item_moves(n, steps):
    """Where each item ends up."""
    k = np.arange(n)
    for h in steps:
        if h["a"] == "items":
            k = k[src(h, n)]
    return np.argsort(k)


NARROW = {"far": (-2.4, .25), "high": (2.8, .36), "spike": (.9, .09), "broad": (0, 36)}       # priors which most answers disagree with (and one that hardly matters)


def density(name):
    if name == "wide":
        return lambda t: np.exp(-np.square(t) / (2 * 1.44)) / np.sqrt(2 * np.pi * 1.44)
    if name == "bimodal":
        return lambda t: (np.exp(-np.square(t - .8) / .98) + np.exp(-np.square(t + .8) / .98)) / (2 * np.sqrt(2 * np.pi * .49))
    if name in NARROW:
        m, v = NARROW[name]
        return lambda t: np.exp(-np.square(t - m) / (2 * v)) / np.sqrt(2 * np.pi * v)
    if name == "skew":
        return lambda t: .6 * np.exp(-np.square(t + .6) / .5) / np.sqrt(np.pi * .5) + .4 * np.exp(-np.square(t - .9) / 1.2) / np.sqrt(np.pi * 1.2)
    return lambda t: np.exp(-np.square(t) / 2) / np.sqrt(2 * np.pi)


def options(c):
    o = dict(c.get("options") or {})
    if c.get("density"):
        o["distribution"] = density(c["density"])
    return o or None


def table(c):
    x = table_of(c)
    if c.get("size") in ("tall", "latent"):         # the weakest respondents first
        x = x[:, np.argsort(np.where(x == MISS, 0, x).sum(0), kind="stable")]
    if c.get("steep"):      # the first item is right for all but the weakest
        g = np.random.default_rng([19, c["seed"]])
        t = g.standard_normal(c["persons"])
        b = np.linspace(-1, 1, c["items"] - 1)
        w = (c.get("cats") or [2] * c["items"])[1:]
        z = t + g.logistic(size=(len(b), len(t))) / 1.6
        rest = [np.sum([y > q + .7 * j - .35 * (m - 2) for j in range(m - 1)], axis=0) for y, q, m in zip(z, b, w)]
        x = np.vstack([[1 * (t + g.logistic(size=len(t)) / 9 > max(c["steep"], np.sort(t)[11]))], rest])
    if c.get("odd"):        # one item that has nothing to do with the others, or follows them exactly
        k = c["oddat"] % len(x)
        g = np.random.default_rng([18, c["seed"]])
        if c["odd"] == "noise":
            x[k] = g.permutation(x[k])
        elif c["odd"] == "rare":        # hardly anybody endorses it
            lo, hi = np.unique(x[x != MISS])[:2]
            t = np.where(x == MISS, 0, x).sum(0)
            x[k] = lo
            x[k, g.choice(np.argsort(t)[len(t) // 2:], c.get("few", 3), replace=False)] = hi
        else:
            t = np.where(x == MISS, 0, x).sum(0) - np.where(x[k] == MISS, 0, x[k])
            keep = np.sort(x[k][x[k] != MISS])
            at = np.flatnonzero(x[k] != MISS)
            x[k, at[np.argsort(t[at] + g.uniform(0, .3, len(at)))]] = keep
    return x


def table_of(c):
    rng = np.random.default_rng([17, c["seed"]])
    n, p = c["items"], c["persons"]
    if c["fn"] in R.DICH:
        return R.dich_table(rng, n, p, alpha=rng.uniform(.8, 1.8, n) + .6 * (c["fn"] == "threepl_mml"), beta=rng.permutation(np.linspace(-1.2, 1.2, n)) + shift(c, n), miss=c.get("miss", 0))
    if c["fn"] in R.MD:
        x = R.md_table(rng, n, p, 2 if c["fn"].startswith("multidimensional_twopl") else 3)
        if c.get("miss"):
            x[rng.random(x.shape) < c["miss"]] = MISS
        return x
    cats = c.get("cats") or 3
    if isinstance(cats, list):
        cats = [cats[i % len(cats)] for i in range(n)]
    if c["fn"] == "gum_mml":
        return gum_table(rng, n, p, c.get("miss", 0))
    return R.poly_table(rng, n, p, cats, miss=c.get("miss", 0), shift=shift(c, n))


def shift(c, n):
    """Moves items along the trait: "easy" all of them, "one" a single item far away."""
    s = np.zeros(n)
    if c.get("shift") == "easy":
        s[:] = -1.2
    if c.get("shift") == "hard":
        s[:] = 1.2
    if c.get("shift") == "one":
        s[1] = -2.6
        s[3] = 1.5
    return s


def gum_table(rng, n, p, miss, cats=3):
    """Answers 1..cats of an unfolding test, the first items well away from the centre."""
    th = rng.standard_normal(p)
    x = np.zeros((n, p), int)
    d = np.linspace(-1.5, 1.5, n)
    for i in range(n):
        tau = -np.linspace(1.2, .3, cats - 1) - rng.uniform(0, .2)
        tau = np.r_[tau, 0, -tau[::-1]]
        z = np.c_[np.zeros(p), np.cumsum(1.5 * (th[:, None] - d[i] - tau[None]), axis=1)]
        e = np.exp(z - z.max(1, keepdims=True))
        e = e[:, :cats] + e[:, cats:][:, ::-1]
        e /= e.sum(1, keepdims=True)
        x[i] = 1 + (rng.random(p)[:, None] > np.cumsum(e, axis=1)).sum(1).clip(0, cats - 1)
    if miss:
        x[rng.random(x.shape) < miss] = MISS
    return x


def estimate(c, x, gum_item=0):
    kw = {}
    if c.get("disc"):
        kw["disc"] = c["disc"]
    if c["fn"] == "gum_mml":
        kw["delta_sign"] = (int(gum_item), 1)
    e = R.est(c["fn"], x, options(c), **kw)
    d = e["disc"]
    a = e["ability"]
    return dict(disc=[[fx(v) for v in np.atleast_1d(r)] for r in d], diff=[[fx(v) for v in r] for r in e["diff"]],
                extra=[[fx(v) for v in r] for r in e["extra"]],
                ability=[] if a is None else [[fx(v) for v in np.atleast_1d(r)] for r in (a.T if a.ndim == 2 else a)])


# ends of the range searched for the discrimination, where ending there leaves the other estimates open
EDGE = {"multidimensional_twopl_mml": fx(2.99), "multidimensional_grm_mml": fx(2.99), "twopl_jml": fx(3.99), "grm_jml": fx(3.99)}


def run(c):
    x = table(c)
    base = estimate(c, x.copy(), 0)
    if c.get("noability"):
        base["ability"] = []
    views = []
    for s in c["views"]:
        y = present(x, s)
        e = estimate(c, y.copy(), item_moves(x.shape[0], s)[0])
        if c.get("noability"):
            e["ability"] = []
        views.append(dict(steps=s, y=y.tolist(), est=e, tol=c["tol"]))
    return dict(op="present", x=x.tolist(), est=base, views=views, edge=EDGE.get(c["fn"], 0))


MODEL = """SPECIFICATION Spec
CONSTANTS Items = %d Persons = %d Codes = %s Length = %d Emit = %s Kinds = {%s}
"""


def model(ctx, kinds, items=2, persons=2, codes="{0,1,2}", length=2):
    ctx.model("PresentationMC", MODEL % (items, persons, codes, length, "FALSE", ",".join('"%s"' % k for k in kinds)) +
              "INVARIANTS Equivariant Composes MirrorTwice", workers=8)


def histories(ctx, kinds, num, length=2, items=6):
    h = ctx.generate("PresentationMC", MODEL % (items, 1, "{0}", length, "TRUE", ",".join('"%s"' % k for k in kinds)) + "VIEW View\n",
                     lines=True, args=["-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(ctx.seed)])
    out = []
    for q in h:
        if q not in out:
            out.append(q)
    ctx.rng.shuffle(out)
    return out
