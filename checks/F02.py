"""Factors states rotations, angles of unit vectors and entropies of loadings over fixed point numbers; TLC checks the statements against each
other on a grid. FactorsTrace checks what the real code returns: Procrustes matrices (orthogonal, exact, nearest of all), sparsified loadings
with their bases, angles and unit vectors in up to eight dimensions, entropies by row and by column."""
import numpy as np
from vlib.fx import fx, vec, mat, fxa
SPEC = "FactorsTrace"
TIMEOUT = 400


def models(ctx):
    ctx.model("FactorsMC", "SPECIFICATION Spec\nCONSTANTS Loads = {40000} Starts = {0} Steps = 1 Angles = {%s}\nINVARIANTS OnSphere Rotation"
              % ", ".join(str(i * 411774 // ctx.n(16, 48)) for i in range(ctx.n(16, 48))), workers=8)


def cases(ctx):
    k = 0
    for v in range(ctx.n(40, 300)):
        for op in ("procrustes", "sphere", "angles", "entropy"):
            k += 1
            yield dict(op=op, seed=1000 * ctx.seed + k, v=v)
    for v in range(ctx.n(16, 64)):
        k += 1
        yield dict(op="sparse", seed=1000 * ctx.seed + k, v=v, f=[2, 3, 1, 2][v % 4], how=["simple", "oblique", "guess", "generator"][(v // 2) % 4])


def rotation(rng, n):
    return np.linalg.qr(rng.normal(0, 1, (n, n)))[0]


def run(c):
    import girth.common as gc, girth.factoranalysis as fa
    rng = np.random.default_rng([92, c["seed"]])
    v = c["v"]
    if c["op"] == "procrustes":
        k, n = 1 + v % 4, [6, 10, 4][v % 3]
        T = rng.uniform(-1, 1, (n, k))
        exact = v % 5 < 3
        C = T @ rotation(rng, k) + (0 if exact else rng.normal(0, .3, (n, k)))
        Q = gc.procrustes_rotation(T, C)
        return dict(op="procrustes", k=k, T=mat(T), C=mat(C), Q=mat(Q), exact=exact, others=[mat(rotation(rng, k)) for _ in range(4)] + [mat(np.eye(k)), mat(-np.eye(k))])
    if c["op"] == "sphere":
        n = 1 + v % 7
        t = rng.uniform(0, 2 * np.pi, n)
        if v % 3 == 0:
            t = rng.integers(0, 5, n) * np.pi / 2
        return dict(op="sphere", t=fxa(t), v=vec(gc.hyperspherical_vector(t.tolist() if v % 4 == 1 else t)))
    if c["op"] == "angles":
        n = 2 + v % 7
        x = rng.normal(0, 1, n) * [1, 3, .2][v % 3]
        if v % 4 == 0:
            x[rng.random(n) < .5] = 0
            x[rng.integers(n)] = rng.choice([-1, 1])
        if v % 8 == 4:
            x[:] = 0
            x[rng.integers(n)] = rng.choice([-1., 1.])
        if v % 5 == 2:
            x = np.round(x * 3); x[0] = x[0] or 1
        x = np.clip(x, -6, 6)
        y = x.astype(int) if v % 10 == 2 else x
        scale = [1, 1e-9, 1, 1e5, 1e-40, 1, 1e-4][v % 7]      # only the direction counts
        t = gc.hyperspherical_angles(y if scale == 1 else x * scale)
        return dict(op="angles", v=vec(x), t=vec(t), back=vec(gc.hyperspherical_vector(t)))
    if c["op"] == "entropy":
        n, k = 1 + v % 5, 1 + (v // 2) % 4
        m = rng.uniform(-1, 1, (n, k)) * rng.choice([.3, 1, 4], (n, 1))
        if v % 4 == 1:
            m = np.eye(max(n, k))[:n, :k] * 2 + (0 if n <= k else .5)
        if v % 4 == 2:
            m = rng.choice([-1., 1.], (n, k))
        if v % 4 == 3:
            m = rng.integers(1, 4, (n, k)) * rng.choice([-1, 1], (n, k))
        axis = (v // 3) % 2
        if (m != 0).any(1 - axis if False else axis).all() is False:
            m = m + 1
        h = gc.entropy(m, axis=axis) if v % 2 or axis == 0 else gc.entropy(m)
        s = np.asarray(m, float)
        lines = s if axis else s.T
        return dict(op="entropy", m=mat(s), axis=axis, h=fx(h), tol=8 * (lines.shape[0] + 1)) if (lines != 0).any(1).all() else dict(op="entropy", m=mat(np.ones((1, 1))), axis=1, h=fx(gc.entropy(np.ones((1, 1)))), tol=4)
    f = c["f"]
    n = 3 * f + 3
    S = np.zeros((n, f))
    S[np.arange(n), np.arange(n) % f] = rng.uniform(.4, .9, n) * rng.choice([-1, 1], n)
    simple = c["how"] == "simple" and f > 1
    L = S @ rotation(rng, f) if simple else S + rng.normal(0, .15, (n, f))
    keep = L.copy()
    orth = simple or v % 4 == 3
    g = dict(initial_guess=rng.uniform(0, 2 * np.pi, f * (f - 1))) if c["how"] == "guess" and f > 1 else {}
    kw = dict(orthogonal=orth, **g)
    if not orth:
        kw["alpha"] = [.5, 1.5, .3][v % 3]
    seed = (lambda: np.random.default_rng(c["seed"])) if c["how"] == "generator" else (lambda: [0, 1, c["seed"]][v // 8 % 3])
    r, b = fa.sparsify_loadings(L, seed=seed(), **kw)
    r2, b2 = fa.sparsify_loadings(L, seed=seed(), **kw)
    return dict(op="sparse", L=mat(L), rot=mat(r), bases=mat(b), orthogonal=bool(orth), simple=bool(simple), slack=300 * n, again=bool((r == r2).all() and (b == b2).all()), untouched=bool((L == keep).all()))
