"""Observes the ability routines (see spec/Scoring.tla)."""
import numpy as np
from . import present as P
from .fx import fx, fl, NAN

MISS = P.MISS
PRIOR = {"normal": [(1, 0, 1)], "wide": [(1, 0, 1.44)], "bimodal": [(.5, .8, .49), (.5, -.8, .49)], "skew": [(.6, -.6, .25), (.4, .9, .6)], "flat": []}
PRIOR.update({k: [(1, m, v)] for k, (m, v) in P.NARROW.items()})


def exact(v):
    """The nearest numbers the specification can represent: where the slope hardly falls, a rounded guessing parameter moves the maximum."""
    return np.round(np.asarray(v) * 65536) / 65536


def items(rng, fn, n, k=0, factors=1, cats=None, sharp=False, shift=0):
    """Random items: parameters as the routines take them and as the specification sees them."""
    if fn.startswith("multi"):
        a = rng.uniform(-.4, 1.5, (n, factors)) * (2.2 if sharp else 1)
        cats = cats or [2] * n
        b = np.full((n, max(cats) - 1), np.nan)
        for i, c in enumerate(cats):
            v = np.sort(rng.uniform(-1.8, 1.8, c - 1))[::-1] * (2.5 if sharp else 1)
            v = v - .35 * np.arange(c - 1)
            b[i, :c - 1] = v
        a, b = exact(a), exact(b)
        return dict(a=a, b=b, g=None, spec=[dict(a=[fx(v) for v in a[i]], b=[fx(v) for v in b[i, :c - 1]], kind="multi") for i, c in enumerate(cats)], cats=cats)
    lo, hi = [(.5, 1.5), (.3, 3), (1, 2)][k % 3] if not sharp else (2.5, 6)
    a = rng.uniform(lo, hi, n)
    if k % 4 == 3 and "3pl" not in fn:
        a[:] = a[0]
    b = rng.uniform(-2, 2, n) if not sharp else rng.permutation(np.linspace(-2.8, 2.8, n))
    b = b + shift
    g = rng.uniform(0, .33, n) * (rng.random(n) < .4 if sharp else 1) if "3pl" in fn else None
    if g is not None and k % 2:
        g[0] = 0
    a, b, g = exact(a), exact(b), g if g is None else exact(g)
    s = [dict(a=fx(a[i]), b=[fx(b[i])], c=0 if g is None else fx(g[i]), kind="graded" if g is None else "guess") for i in range(n)]
    return dict(a=a, b=b, g=g, spec=s, cats=[2] * n)


def patterns(rng, n, num, miss, cats=None):
    cats = np.array(cats or [2] * n)
    x = (rng.random((num, n)) * cats).astype(int)
    x[0], x[1] = 0, cats - 1
    if miss:
        x[rng.random(x.shape) < miss] = MISS
        x[2] = MISS
        x[3, 1:] = MISS
        x[3, 0] = 1
        x[4, :] = MISS
        x[4, -1] = 0
    return x


def score(fn, x, it, opt=None, sentinel=None, scalar=False):
    """x: one row per respondent. Returns one row of abilities per respondent."""
    import girth
    f = getattr(girth, fn)
    a = it["a"]
    if scalar:
        a = float(a[0])
    args = [np.ascontiguousarray(x.T), it["b"], a] + ([it["g"]] if it["g"] is not None else [])
    if fn.endswith("_mle"):
        r = f(*args) if sentinel is None else f(*args, no_estimate=sentinel)
    else:
        r = f(*args, options=opt) if opt is not None else f(*args)
    r = np.asarray(r, float)
    return r.T if r.ndim == 2 else r[:, None]


def prior(name):
    return [dict(w=fx(w), m=fx(m), p=fx(1 / v)) for w, m, v in PRIOR[name]]


def fxs(r):
    return [[fx(v) for v in q] for q in r]
