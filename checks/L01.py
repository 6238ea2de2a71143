"""Spline.tla defines cubic B-spline densities and when they are standardised; TLC moves mass between the knots and checks integral, mean and
variance of every density against sums over a grid. SplineTrace evaluates recorded splines, checks estimated and resampled ones for
standardisation and, the problem being concave, that no step towards another admissible spline gains; and the caller's density and criteria."""
import numpy as np
from vlib import present as P
from vlib.fx import fx, fl
SPEC = "SplineTrace"


def models(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d Stop = %d Parcels = %d Grid = %d\nINVARIANTS Whole MeanOf Variance NonNegative Unity SmoothEnough"
    ctx.model("SplineMC", cfg % (5, 5 * 65536, 4, 40), workers=8)
    ctx.model("SplineMC", cfg % (ctx.n(6, 9), 4 * 65536, 2, 60), workers=8)
    if not ctx.quick:
        ctx.model("SplineMC", cfg % (7, 6 * 65536, 4, 50), workers=8)


def cases(ctx):
    for v in range(ctx.n(20, 100)):
        yield dict(op="spline", seed=100 * ctx.seed + v, n=[5, 7, 9, 12, 3, 6, 21][v % 7], stop=[5, 4.5, 6, 4][v % 4])
    for v in range(ctx.n(18, 150)):
        yield dict(op="estimated", seed=100 * ctx.seed + v, n=[7, 9, 11, 8, 13][v % 5], stop=[5, 4.5, 5.5][v % 3], q=[31, 41, 25][v % 3], items=[6, 10, 15, 4][v % 4],
                   persons=[60, 90, 40][v % 3], shape=["normal", "bimodal", "skew"][v % 3], iteration=1 + v % 3, gain=15, tol=60)
    for v in range(ctx.n(3, 16)):               # long tests (tiny likelihoods), many respondents
        yield dict(op="estimated", seed=100 * ctx.seed + 60 + v, n=[7, 9][v % 2], stop=[5, 4.5][v % 2], q=[31, 25][v % 2], items=[60, 6, 110, 30][v % 4], persons=[50, 260, 30, 150][v % 4],
                   shape=["normal", "bimodal", "skew"][v % 3], iteration=1 + v % 2, gain=15, tol=60)
    for v in range(ctx.n(12, 60)):
        yield dict(op="null", seed=100 * ctx.seed + v, density=["normal", "wide", "skew", "bimodal"][v % 4], q=[31, 41, 25][v % 3], stop=[5, 4.5, 5.5][v % 3],
                   estimate=bool(v % 2), iteration=0 if v % 2 else v, n=[7, 9][v % 2])
    for v in range(ctx.n(16, 80)):
        yield dict(op="resample", seed=100 * ctx.seed + v, n=[7, 9, 11, 13, 8][v % 5], m=[9, 7, 13, 8, 15, 11][v % 6], stop=[5, 4.5, 5.5][v % 3], gain=60)
    for v in range(ctx.n(8, 40)):
        yield dict(op="criteria", seed=100 * ctx.seed + v, k=[0, 3, 8][v % 3], persons=[30, 77, 900][v % 3], q=[21, 31][v % 2], tol=[3000, 3000, 20000][v % 3])


def constraints(n, stop):
    s = (np.arange(n) - (n - 1) / 2) * 2 * stop / (n + 3)
    d = 2 * stop / (n + 3)
    return np.array([np.ones(n), s, s * s]), np.array([1, 0, 1 - d * d / 3])


def rivals(rng, n, stop, num):
    """Admissible coefficients: corners of the set of all admissible ones and averages of them."""
    from scipy.optimize import linprog
    a, b = constraints(n, stop)
    out = []
    for _ in range(num):
        r = linprog(rng.standard_normal(n), A_eq=a, b_eq=b, bounds=[(0, 1)] * n)
        if r.status == 0:
            out.append(r.x)
    out += [(p + q) / 2 for p, q in zip(out, out[1:])][:3]
    return out


def likelihoods(rng, items, persons, t, shape):
    th = rng.standard_normal(persons) if shape == "normal" else np.where(rng.random(persons) < .5, -1, 1) * .85 + .5 * rng.standard_normal(persons) if shape == "bimodal" \
        else rng.exponential(1, persons) - 1
    b, a = rng.uniform(-1.5, 1.5, items), rng.uniform(.8, 2, items)
    x = rng.random((items, persons)) < 1 / (1 + np.exp(-a[:, None] * (th - b[:, None])))
    p = 1 / (1 + np.exp(-a[:, None] * (t - b[:, None])))
    L = np.ones((persons, t.size))
    for i in range(items):
        L *= np.where(x[i][:, None], p[i], 1 - p[i])
    return L


def nodes(q, stop):
    t, w = np.polynomial.legendre.leggauss(q)
    return stop * t, stop * w


def run(c):
    import girth
    from girth.utilities import latent_ability_distribution as lad
    rng = np.random.default_rng([71, c["seed"]])
    if c["op"] == "spline":
        n, stop = c["n"], c["stop"]
        s = girth.CubicSplinePDF(dict(number_of_samples=n, quadrature_bounds=(-stop, stop)))
        co = rng.dirichlet(np.ones(n))
        s.update_coefficients(co)
        try:
            s.update_coefficients(np.ones(n + 1))
            refused = False
        except AssertionError:
            refused = True
        xs = np.r_[rng.uniform(-stop * 1.1, stop * 1.1, 12), 0, 1, -stop, stop, s.sample_space[3]]
        y, f = s(xs), s.filter_matrix(xs)
        cx, cy = s.continuous_pdf(bounds=(-stop, stop * .9), n_points=17)
        return dict(op="spline", n=n, stop=fx(stop), c=[fx(v) for v in co], at=[dict(x=fx(x), y=fx(v), b=[fx(q) for q in r[2:-2]]) for x, v, r in zip(xs, y, f)],
                    fine=[dict(x=fx(x), y=fx(v)) for x, v in zip(cx, cy)], refused=refused, tol=60)
    if c["op"] == "estimated":
        n, stop = c["n"], c["stop"]
        o = dict(estimate_distribution=True, number_of_samples=n, quadrature_bounds=(-stop, stop), quadrature_n=c["q"])
        t, w = nodes(c["q"], stop)
        L = likelihoods(rng, c["items"], c["persons"], t, c["shape"])
        pdf = girth.LatentPDF(o)
        for k in range(c["iteration"]):
            r = pdf(L.copy(), k + 1)
        co = pdf.cubic_splines[-1].coefficients[2:-2]
        return dict(op="estimated", n=n, stop=fx(stop), c=[fx(v) for v in co], w=[fl(v) for v in r], th=[fx(v) for v in t], qw=[fl(v) for v in w],
                    L=[[fl(v) for v in p] for p in L], rivals=[[fx(v) for v in q] for q in rivals(rng, n, stop, 6)], gain=c["gain"], tol=c["tol"])
    if c["op"] == "null":
        o = dict(estimate_distribution=c["estimate"], number_of_samples=c["n"], quadrature_bounds=(-c["stop"], c["stop"]), quadrature_n=c["q"], distribution=P.density(c["density"]))
        t, w = nodes(c["q"], c["stop"])
        r = girth.LatentPDF(o)(likelihoods(rng, 5, 30, t, "normal"), c["iteration"])
        return dict(op="null", w=[fl(v) for v in r], given=[fl(v) for v in w * P.density(c["density"])(t)])
    if c["op"] == "resample":
        n, m, stop = c["n"], c["m"], c["stop"]
        if m == n:
            m += 2
        s = girth.CubicSplinePDF(dict(number_of_samples=n, quadrature_bounds=(-stop, stop)))
        co = np.mean(rivals(rng, n, stop, 5), axis=0)
        s.update_coefficients(co)
        before = s.coefficients.copy()
        r = lad.resample(s, m)
        try:
            lad.resample(s, n)
            refused = False
        except AssertionError:
            refused = True
        return dict(op="resample", n=n, m=m, stop=fx(stop), old=[fx(v) for v in co], c=[fx(v) for v in r.coefficients[2:-2]], pts=[fx(v) for v in r.sample_space],
                    rivals=[[fx(v) for v in q] for q in rivals(rng, m, stop, 6)], gain=c["gain"], refused=refused,
                    kept=bool(np.array_equal(before, s.coefficients) and s.number_of_samples == n))
    t, w = nodes(c["q"], 5)
    L = likelihoods(rng, 8, c["persons"], t, "normal")
    wd = w * P.density("normal")(t)
    a, b = girth.LatentPDF(dict(quadrature_n=c["q"], quadrature_bounds=(-5, 5))).compute_metrics(L.copy(), wd.copy(), c["k"])
    return dict(op="criteria", L=[[fl(v) for v in p] for p in L], w=[fl(v) for v in wd], aic=fx(a / 2), bic=fx(b / 2), k=c["k"], tol=c["tol"])
