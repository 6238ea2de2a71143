"""Observes marginal estimates and proposes rivals to them (see spec/Maximum.tla)."""
import itertools
import numpy as np
from . import population, present as P, routines as R
from .fx import fx, fl

MISS = P.MISS
SHARES = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "threepl_mml", "grm_mml", "grm_mml_eap"] + R.MD
ARANGE = {"rasch_mml": (0, 60), "onepl_mml": (.25, 10), "twopl_mml": (.2, 5), "grm_mml": (.2, 5), "twopl_mml_eap": (.2, 5), "grm_mml_eap": (.2, 5), "pcm_mml": (.25, 4),
          "gum_mml": (.25, 4), "threepl_mml": (.25, 4)}
KIND = {"pcm_mml": "credit", "gum_mml": "unfold", "threepl_mml": "guess"}


def probs(item, t):
    """Category probabilities at the nodes (t: nodes x factors)."""
    if item["kind"] == "multi":
        z = (t @ np.asarray(item["a"]))[None] + np.asarray(item["b"])[:, None]
        up = np.concatenate([np.ones((1, len(t))), 1 / (1 + np.exp(-z)), np.zeros((1, len(t)))])
        return up[:-1] - up[1:]
    x = t[:, 0]
    if item["kind"] == "guess":
        p = item["c"] + (1 - item["c"]) / (1 + np.exp(-item["a"] * (x - item["b"][0])))
        return np.array([1 - p, p])
    if item["kind"] == "unfold":
        m = len(item["b"])
        k = np.arange(m + 1)[:, None]
        tau = np.concatenate([[0], np.cumsum(item["b"])])[:, None]
        d = item["a"] * (x - item["delta"])[None]
        span = 2 * m + 1
        u = np.exp(k * d - item["a"] * tau) + np.exp((span - k) * d - item["a"] * tau)
        return u / u.sum(0)
    return population.category(item, x)


def place(item, share, t, w):
    """The item's thresholds where the marginal probabilities are the shares (share[k]: of answers k+1 and higher)."""
    out = []
    for s in share:
        if item["kind"] == "multi":
            lo, hi, sign = -40.0, 40.0, 1
        else:
            lo, hi, sign = -6.0, 6.0, -1
        for _ in range(70):
            m = (lo + hi) / 2
            p = (w * probs(dict(item, b=[m]), t)[1]).sum()
            if (p < s) == (sign > 0):
                lo = m
            else:
                hi = m
        out.append((lo + hi) / 2)
    return dict(item, b=out)


def spec(item):
    r = dict(a=[fx(v) for v in item["a"]] if item["kind"] == "multi" else fx(item["a"]), b=[fx(v) for v in item["b"]], kind=item["kind"])
    if item["kind"] == "guess":
        r["c"] = fx(item["c"])
    if item["kind"] == "unfold":
        r["delta"] = fx(item["delta"])
    return r


def tables(c):
    """(answers, the items they come from or None)"""
    rng = np.random.default_rng([91, c["seed"]])
    fn, n, p = c["fn"], c["items"], c["persons"]
    if c.get("exact"):
        t, w = axes(c)
        items = c["exact"]
        tab = [probs(i, t) for i in items]
        cols = []
        for pat in itertools.product(*[range(len(q)) for q in tab]):
            pr = w.copy()
            for k, v in enumerate(pat):
                pr = pr * tab[k][v]
            cols += [list(pat)] * int(round(p * pr.sum()))
        x = np.array(cols).T
        return np.ascontiguousarray(x[:, rng.permutation(x.shape[1])]), items
    miss = c.get("miss", 0)
    if fn in R.DICH:
        x = R.dich_table(rng, n, p, alpha=rng.uniform(.7, 2, n) + .3 * (fn == "threepl_mml"), beta=rng.permutation(np.linspace(-1.5, 1.5, n)) * (.6 if "hyper" in c else 1), miss=miss)
        if fn == "threepl_mml":
            g = rng.uniform(0, .33, n)
            x = np.where((x == 0) & (rng.random(x.shape) < g[:, None]), 1, x)
    elif fn in R.MD:
        x = R.md_table(rng, n, p, 2 if fn == "multidimensional_twopl_mml" else 3)
        x[rng.random(x.shape) < miss] = MISS
    elif fn == "gum_mml":
        x = P.gum_table(rng, n, p, miss)
    else:
        x = R.poly_table(rng, n, p, [[3, 4, 2, 3, 2, 3], [3] * n, [2, 3, 3, 4, 2, 2]][c["seed"] % 3][:n], low=c.get("low", 1), miss=miss)
    return x, None


def axes(c):
    t, w = population.nodes(c)
    f = c.get("factors", 1)
    return np.array(list(itertools.product(t, repeat=f))), np.array([np.prod(q) for q in itertools.product(w, repeat=f)])


def observe(c):
    fn = c["fn"]
    rng = np.random.default_rng([92, c["seed"]])
    x, truth = tables(c)
    opt = dict(quadrature_n=c["q"], quadrature_bounds=tuple(c["bounds"]), distribution=P.density(c["density"]), max_iteration=c.get("iter", 300))
    if c.get("lut") is False:
        opt["use_LUT"] = False
    if c.get("latent"):
        opt.update(estimate_distribution=True, number_of_samples=c["latent"])
    f = c.get("factors", 1)
    eap = fn.endswith("_eap")
    if eap:
        opt["hyper_quadrature_n"] = c["hyper"]
    e = R.est(fn, x.copy(), opt, **(dict(n_factors=f) if f > 1 else {}), **(dict(disc=c["disc"]) if "disc" in c else {}))
    n = x.shape[0]
    codes = [sorted(set(r.tolist()) - {MISS}) for r in x]
    steps = [len(v) - 1 for v in codes]
    kind = "multi" if f > 1 else KIND.get(fn, "graded")
    items = []
    for i in range(n):
        b = (e["extra"][i, 1:] if fn == "gum_mml" else e["diff"][i])[:steps[i]]
        it = dict(a=[float(v) for v in e["disc"][i]] if f > 1 else float(e["disc"][i]), b=[float(v) for v in b], kind=kind)
        if kind == "guess":
            it["c"] = float(e["extra"][i, 0])
        if kind == "unfold":
            it["delta"] = float(e["extra"][i, 0])
        items.append(it)
    idx = np.array([[MISS if v == MISS else codes[i].index(v) for v in r] for i, r in enumerate(x.tolist())])
    u, cnt = np.unique(idx, axis=1, return_counts=True)
    share = [[((idx[i] >= k).sum() / (idx[i] >= 0).sum()) for k in range(1, steps[i] + 1)] for i in range(n)]
    t, w = axes(c)
    t1, w1 = population.nodes(c)
    if c.get("latent"):         # the items belong to the density that was estimated
        lo, hi = c["bounds"]
        w1 = w = np.asarray(e["raw"]["LatentPDF"].cubic_splines[-1](t1)) * np.polynomial.legendre.leggauss(c["q"])[1] * (hi - lo) / 2
    out = dict(items=[spec(i) for i in items], factors=f, th=[fx(v) for v in t1], w=[fl(v) for v in w1], pats=u.T.tolist(), n=[int(v) for v in cnt], stol=c["stol"])
    again = lambda it, i: place(it, share[i], t, w) if fn in SHARES else it
    if eap:
        al, wa = np.polynomial.legendre.leggauss(c["hyper"])
        alpha, wa = 4.75 / 2 * (al + 1) + .25, wa * 4.75 / 2
        sc, ws = np.polynomial.legendre.leggauss(c["hyper"])
        scales, ws = 4.9 / 2 * (sc + 1) + .1, ws * 4.9 / 2
        grid = [[again(dict(items[i], a=v), i) for v in alpha] for i in range(n)]
        return dict(out, op="mean", alpha=[fx(v) for v in alpha], wa=[fl(v) for v in wa], scales=[fx(v) for v in scales], ws=[fl(v) for v in ws], scale=fx(e["raw"]["Rayleigh_Scale"]),
                    grid=[[spec(q) for q in r] for r in grid], mtol=c["mtol"], strict="kf" in c)
    lo, hi = ARANGE.get(fn, (None, None))
    rivals = []
    d = c["step"]
    for i, it in enumerate(items):
        for s in (1, -1):
            if fn in ("rasch_mml", "onepl_mml"):
                break
            if f > 1:
                for j in range(f):
                    v = list(it["a"])
                    v[j] += s * d
                    last = i == n - 1 - j
                    if j > n - 1 - i or not (-3 <= v[j] <= 3) or (last and not .2 <= v[j] <= (5 if i == n - 1 else 4)) or np.hypot(*v) < .2 or np.hypot(*v) > 4:
                        continue
                    rivals.append((i, again(dict(it, a=v), i)))
                continue
            a = it["a"] + s * d * max(1, it["a"])
            if lo <= a <= hi:
                rivals.append((i, again(dict(it, a=a), i)))
            if kind == "guess" and 0 <= it["c"] + s * .04 <= .33:
                rivals.append((i, again(dict(it, c=it["c"] + s * .04), i)))
            if kind == "unfold" and abs(it["delta"] + s * d) <= 2:
                rivals.append((i, dict(it, delta=it["delta"] + s * d)))
            if fn not in SHARES:
                for k in range(len(it["b"])):
                    b = list(it["b"])
                    b[k] += s * 1.5 * d
                    if abs(b[k]) <= 6:
                        rivals.append((i, dict(it, b=b)))
    # a share that no threshold within the range produces leaves nothing to compare
    ok = [r for r in rivals if kind == "multi" or all(abs(v) < 5.9 for v in r[1]["b"])]
    two = rng.permutation(n)[:2]                # rivals of two items: what the others contribute is computed once
    ok = [r for r in ok if r[0] in two]
    rng.shuffle(ok)
    sets, what = [], "AtLeastAsLikelyAsTheTruth"
    if truth is not None:
        sets = [truth]
    elif fn == "onepl_mml":
        what = "NoNeighbourMoreLikely"
        sets = [[again(dict(it, a=it["a"] + s * d), i) for i, it in enumerate(items)] for s in (1, -1) if lo <= items[0]["a"] + s * d <= hi]
    return dict(out, op="maximum", arange=[0, 0] if f > 1 else [fx(lo), fx(hi)], shares=fn in SHARES, rivals=[dict(i=int(i) + 1, item=spec(q)) for i, q in ok[:c["rivals"]]],
                sets=[[spec(q) for q in s] for s in sets], what=what, ltol=c["ltol"])
