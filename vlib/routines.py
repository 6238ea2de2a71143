"""One uniform way to call the estimation routines of girth (public names only)."""
import numpy as np

DICH = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "threepl_mml", "rasch_jml", "onepl_jml", "twopl_jml",
        "rasch_conditional"]
POLY = ["grm_mml", "grm_mml_eap", "pcm_mml", "gum_mml", "grm_jml", "pcm_jml"]
MD = ["multidimensional_twopl_mml", "multidimensional_grm_mml"]
MARGINAL = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "threepl_mml", "grm_mml", "grm_mml_eap", "pcm_mml", "gum_mml"]
JML = ["rasch_jml", "onepl_jml", "twopl_jml", "grm_jml", "pcm_jml"]
WITH_ABILITY = ["twopl_mml", "twopl_mml_eap", "grm_mml", "grm_mml_eap", "pcm_mml", "gum_mml"] + MD
# take the reserved missing code in the table
MISSING_OK = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "threepl_mml", "rasch_jml", "onepl_jml", "twopl_jml",
              "grm_mml", "grm_mml_eap", "pcm_mml", "gum_mml", "grm_jml", "pcm_jml"] + MD
# take a discrimination
GIVEN_DISC = ["rasch_mml", "rasch_jml", "rasch_conditional"]
ABILITY = ["ability_mle", "ability_map", "ability_eap", "ability_3pl_mle", "ability_3pl_map", "ability_3pl_eap"]
MD_ABILITY = ["multidimensional_ability_eap", "multidimensional_ability_map"]


def call(name, table, options=None, disc=None, n_factors=2, delta_sign=None):
    """The raw result of the routine."""
    import girth
    f = getattr(girth, name)
    kw = {}
    if options is not None:
        kw["options"] = options
    if name in GIVEN_DISC and disc is not None:
        kw["discrimination"] = disc
    if name in MD:
        return f(table, n_factors, **kw)
    if name == "gum_mml" and delta_sign is not None:
        kw["delta_sign"] = delta_sign
    return f(table, **kw)


def est(name, table, options=None, **kw):
    """The result as arrays: disc [items or items x factors], diff [items x thresholds], extra [items x ...], ability."""
    r = call(name, table, options, **kw)
    n = np.shape(table)[0]
    d = np.asarray(r["Discrimination"], dtype=float)
    if d.ndim == 0:
        d = np.full((n,), float(d))
    if name == "gum_mml":
        b = np.asarray(r["Difficulties"], dtype=float)
        extra = np.c_[np.asarray(r["Delta"], float).reshape(n, 1), np.asarray(r["Tau"], float).reshape(n, -1)]
    else:
        b = np.asarray(r["Difficulty"], dtype=float)
        b = b.reshape(n, -1) if b.ndim < 2 else b
        extra = np.asarray(r["Guessing"], float).reshape(n, 1) if "Guessing" in r else np.zeros((n, 0))
    return dict(disc=d, diff=b, extra=extra, ability=None if "Ability" not in r else np.asarray(r["Ability"], float), raw=r)


def dich_table(rng, items, persons, alpha=None, beta=None, miss=0.0, code=-99999):
    """A table with answers 0/1 that behaves like a test (seeded numpy generator)."""
    th = rng.standard_normal(persons)
    a = np.ones(items) * 1.2 if alpha is None else np.asarray(alpha, float)
    b = np.linspace(-1.2, 1.2, items) if beta is None else np.asarray(beta, float)
    p = 1 / (1 + np.exp(-a[:, None] * (th[None] - b[:, None])))
    x = (rng.random((items, persons)) < p).astype(int)
    if miss:
        x[rng.random(x.shape) < miss] = code
    return x


def poly_table(rng, items, persons, cats, miss=0.0, low=1, code=-99999, shift=None):
    """Graded answers low..low+cats-1 (cats: one number or one per item)."""
    th = rng.standard_normal(persons)
    cats = [cats] * items if np.ndim(cats) == 0 else list(cats)
    x = np.zeros((items, persons), dtype=int)
    for i, k in enumerate(cats):
        t = np.linspace(-1, 1, k - 1) if k > 2 else np.zeros(1)
        t = t + rng.uniform(-.4, .4) + (0 if shift is None else shift[i])
        u = 1.3 * th + rng.logistic(size=persons)
        x[i] = low + (u[None] > 1.3 * t[:, None]).sum(0)
        for v in range(k):                    # every category occurs
            x[i, (i * 7 + v) % persons] = low + v
    if miss:
        m = rng.random(x.shape) < miss
        for i, k in enumerate(cats):
            for v in range(k):
                m[i, (i * 7 + v) % persons] = False
        x[m] = code
    return x


def md_table(rng, items, persons, cats, low=0):
    """Answers low..low+cats-1 of a two-factor test."""
    th = rng.standard_normal((2, persons))
    a = np.array([[1.2 if i % 2 == 0 else .3, .2 if i % 2 == 0 else 1.3] for i in range(items)])
    a[-1] = [1.1, 0]
    x = np.zeros((items, persons), dtype=int)
    for i in range(items):
        t = (np.linspace(-.9, .9, cats - 1) if cats > 2 else np.zeros(1)) + rng.uniform(-.5, .5)
        u = a[i] @ th + rng.logistic(size=persons)
        x[i] = low + (u[None] > t[:, None]).sum(0)
    return x
