"""Factors states eigen-relations and exact factor matrices over fixed point matrices and the principal axis iteration; TLC runs the iteration on
every one-factor matrix of a grid from several starts. FactorsTrace checks the components, loadings, eigenvalues and unique variances the
real code extracts from exact factor matrices (known loadings and unique variances, correlation and covariance), from every admissible guess."""
import numpy as np
from vlib.fx import fx, vec, mat, fxa
SPEC = "FactorsTrace"
ASSUMES = ["exact factor matrices with unique variances between 0.15 and 0.85 of the item variances, and enough items per factor to identify them well (principal axes contract by 0.9 at least)"]


def models(ctx):
    ctx.model("FactorsMC", "SPECIFICATION Spec\nCONSTANTS Loads = {%s} Starts = {%s} Steps = %d Angles = {0, 30000, 110000, 205887, 300000}\nINVARIANTS FixedPoint Arrives Exact OnSphere Rotation"
              % (("40000, 56000", "0, 32768", 20) if ctx.quick else ("36000, 45000, 50000, 58000", "0, 15000, 32768, 50000", 40)), workers=8)


def cases(ctx):
    k = 0
    for v in range(ctx.n(60, 400)):
        k += 1
        yield dict(op="pca", seed=1000 * ctx.seed + k, n=[4, 6, 9, 3, 2, 12][v % 6], v=v, kind=["corr", "cov", "singular", "exact", "ints"][(v // 2) % 5])
    for v in range(ctx.n(72, 400)):
        for how in ["paf", "paf_tight", "paf_guess", "mr", "mr_guess", "ml", "ml_guess", "ml_int"]:
            k += 1
            yield dict(op="extract", how=how, seed=1000 * ctx.seed + k, f=1 + v % 3, v=v, cap=[.8, .8, .8, .8, .94, .88][v % 6] if v % 3 < 2 or how[:3] == "paf" else .8, cov=v % 2 == 1 and not how.startswith("mr"))


    for v in range(ctx.n(6, 30)):
        k += 1
        yield dict(op="pca", seed=1000 * ctx.seed + k, n=[30, 18, 24][v % 3], v=v, kind=["corr", "cov"][v % 2])
    for v in range(ctx.n(6, 30)):
        for how in ["paf", "paf_tight", "mr", "ml", "ml_guess"]:
            k += 1
            yield dict(op="extract", how=how, seed=1000 * ctx.seed + k, f=1 + v % 3, v=v, cap=.8, cov=False, items=[16, 20, 24][v % 3])
    for v in range(ctx.n(10, 40)):      # an item that is nearly its factor
        for how in ["paf_tight", "mr_guess", "ml", "ml_guess"]:
            k += 1
            yield dict(op="extract", how=how, seed=1000 * ctx.seed + k, f=1 + v % 2, v=v, cap=.8, cov=v % 3 == 1 and how[:2] != "mr", near=[.98, .96, .97, .985][v % 4])


def exact(rng, f, n, cov, cap=.8, near=None):
    L = rng.uniform(-.4, .8, (n, f))
    L[np.arange(n), np.arange(n) % f] = rng.uniform(.5, .9 if cap == .8 else 1.05, n) * rng.choice([-1, 1], n)
    c = (L ** 2).sum(1)
    L *= np.where(c > cap, np.sqrt(cap / c), 1)[:, None]
    if near:
        L[n // 2] *= np.sqrt(near / (L[n // 2] ** 2).sum())
    psi = 1 - (L ** 2).sum(1)
    if cov:
        s = rng.uniform(.6, 1.5, n)
        L, psi = L * s[:, None], psi * s * s
    return L, psi, L @ L.T + np.diag(psi)


def contraction(R, psi, f):
    """How slowly principal axes close in on psi: near one, the matrix hardly determines its factors."""
    def step(u):
        w, V = np.linalg.eigh(R - np.diag(u))
        V = V[:, -f:] * np.sqrt(np.maximum(w[-f:], 0))
        return np.diag(R - V @ V.T)
    b = step(psi)
    J = np.array([(step(psi + 1e-5 * e) - b) / 1e-5 for e in np.eye(len(psi))])
    return np.abs(np.linalg.eigvals(J)).max()


def run(c):
    import girth.factoranalysis as fa
    rng = np.random.default_rng([91, c["seed"]])
    if c["op"] == "pca":
        n, v = c["n"], c["v"]
        X = rng.normal(0, 1, (n, 40)) + rng.normal(0, .8, 40)
        R = np.corrcoef(X) if c["kind"] == "corr" else np.cov(X)
        if c["kind"] == "singular":
            R = np.cov(rng.normal(0, 1, (n, max(2, n // 2))))
        if c["kind"] == "exact":
            R = exact(rng, 1, n, False)[2]
        if c["kind"] == "ints":
            Z = rng.integers(-1, 2, (n, n))
            R = Z @ Z.T + np.eye(n, dtype=int)
        k = [None, 1, 2, n][v % 4]
        if c["kind"] == "singular":
            k = None if v % 2 else 1
        keep = R.copy()
        L, lam, U = fa.principal_components_analysis(R) if k is None else fa.principal_components_analysis(R, k)
        FL, FLam, _ = fa.principal_components_analysis(R)
        return dict(op="pca", R=mat(R), k=k or n, L=mat(L), lam=vec(lam), U=vec(U), full=dict(L=mat(FL), lam=vec(FLam)), tol=24 + int(np.abs(R).max() * 12), untouched=bool((R == keep).all()))
    f, how = c["f"], c["how"]
    n = c.get("items") or [4, 5, 7][c["v"] % 3] + 2 * (f - 1) + (f == 3)
    for _ in range(200):
        L, psi, R = exact(rng, f, n, c["cov"], c["cap"], c.get("near"))
        if contraction(R, psi, f) < .9:
            break
    d = np.diag(R)
    guess = [rng.uniform(.2, .8, n) * d, np.full(n, .5), np.zeros(n), .9 * d][c["v"] % 4]
    if not how.startswith("paf") and c["v"] % 4 == 2:
        guess = psi.copy()
    if how in ("mr_guess", "ml", "ml_guess") and f == 3:  # the criteria have other local minima far from psi
        how = how[:2] + "_guess"
        guess = psi * rng.uniform(.8, 1.25, n)
    if how == "ml_int":
        guess = np.ones(n, int)
    keep, kg = R.copy(), guess.copy()
    if how.startswith("paf"):
        kw = dict(tolerance=1e-8) if how != "paf" else {}
        if how == "paf_guess":
            kw["initial_guess"] = guess
        out = fa.principal_axis_factor(R, f, **kw)
        tol = 16 if how != "paf" else 1500
    elif how.startswith("mr"):
        out = fa.minimum_rank_factor_analysis(R, f, **(dict(initial_guess=guess, n_iter=5000) if how == "mr_guess" else {}))
        tol = 1000 if how == "mr" else 300
    else:
        kw = dict(max_iter=20000, tolerance=1e-10)
        if how != "ml":
            kw["initial_guess"] = guess
        out = fa.maximum_likelihood_factor_analysis(R, f, **kw)
        tol = 16
    return dict(op="extract", method=how[:2], R=mat(R), k=f, psi=fxa(psi), L=mat(out[0]), lam=vec(out[1]), U=vec(out[2]), tol=tol, untouched=bool((R == keep).all() and (guess == kg).all()))
