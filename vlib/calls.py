"""Every public function of girth with arguments to call it with (name, variant) -> (function, args, kwargs)."""
import functools
import numpy as np
from scipy import stats
from . import routines as R

MISS = -99999


def rng(*k):
    return np.random.default_rng([11, *k])


def normal_pdf(t):
    return np.exp(-np.square(t) / 2) / np.sqrt(2 * np.pi)


def opts(v, **kw):
    o = [dict(quadrature_n=21), dict(quadrature_n=21, distribution=stats.norm(.6, .9).pdf), dict(distribution=normal_pdf, quadrature_bounds=[-4.0, 4.0]),
         dict(quadrature_n=21, distribution=stats.norm(-.5, 1.2).pdf), dict(quadrature_n=15, quadrature_bounds=(-4, 4))][v % 5]
    o.update(kw)
    return o


def dich(v, missing=True):
    r = rng(1, v)
    n = 4 + v % 2
    x = R.dich_table(r, n, 50 + 10 * v, alpha=r.uniform(.7, 2, n), miss=.08 if missing and v % 2 else 0)
    x[:, :2] = [[0, 1]] * n
    return x


def poly(v):
    return R.poly_table(rng(2, v), 4, 60 + v, [3, 4, 3, 3] if v % 2 else 3, miss=.06 if v % 2 else 0)


def factors(v):
    r = rng(3, v)
    n, f = 7, 2
    lam = r.uniform(.35, .75, (n, f)) * np.array([[1, 0]] * 3 + [[0, 1]] * 4)
    lam += r.uniform(-.1, .1, (n, f))
    return lam, lam @ lam.T + np.diag(1 - (lam ** 2).sum(1))


def build(name, v):
    import girth, girth.common as C, girth.factoranalysis as F, girth.synthetic as S, girth.utilities as U
    import girth.multidimensional as M
    r = rng(4, v)
    b4, a4 = np.linspace(-1, 1, 5), np.linspace(.8, 1.6, 5)
    if name in R.DICH:
        x = dich(v, missing=name != "rasch_conditional")
        kw = dict(options=opts(v, max_iteration=6))
        if name in R.GIVEN_DISC:
            kw["discrimination"] = [1.0, 1.3, 0.8][v % 3]
        if name in ("twopl_mml", "twopl_mml_eap") and v % 2:
            kw["options"].update(estimate_distribution=True, number_of_samples=7, max_iteration=3)
        if name == "twopl_mml" and v % 3 == 2:
            kw["options"]["use_LUT"] = False
        return getattr(girth, name), [x], kw
    if name in R.POLY:
        kw = dict(options=opts(v, max_iteration=3))
        if name in ("grm_mml", "grm_mml_eap", "pcm_mml") and v % 2:
            kw["options"].update(estimate_distribution=True, number_of_samples=6)
        if name == "gum_mml" and v % 2:
            kw["delta_sign"] = (1, -1)
        return getattr(girth, name), [poly(v)], kw
    if name in R.MD:
        x = R.md_table(rng(5, v), 6, 300, 3 if "grm" in name else 2)
        return getattr(girth, name), [x, 2], dict(options=dict(quadrature_n=9, max_iteration=2, initial_guess=bool(v % 2)))
    if name == "initial_guess_md":
        return M.initial_guess_md, [R.md_table(rng(5, v), 6, 300, 2), 2], {}
    if name in R.MD_ABILITY:
        x = R.md_table(rng(6, v), 5, 12, 2)
        x[:, :2] = [[0, 1]] * 5
        return getattr(girth, name), [x, b4, np.c_[a4, a4[::-1] - 1.2]], dict(options=dict(quadrature_n=11))
    if name in R.ABILITY:
        x = R.dich_table(rng(7, v), 5, 14, miss=.1)
        args = [x, b4, a4 if v % 2 else (a4 * 0 + 1.2)]
        if "3pl" in name:
            args.append(np.linspace(.05, .2, 5))
        return getattr(girth, name), args, (dict(no_estimate=3.0) if name.endswith("mle") and v % 2 else
                                             {} if name.endswith("mle") else dict(options=opts(v)))
    if name == "standard_errors_bootstrap":
        return girth.standard_errors_bootstrap, [dich(2 * v), functools.partial(girth.rasch_mml, discrimination=1.1) if v % 2 else girth.onepl_mml], \
            dict(bootstrap_iterations=4, n_processors=1, seed=[5, 0, 7, 123456789][v], options=opts(v),
                 solution=dict(Discrimination=np.array(1.1), Difficulty=np.linspace(-1, 1, 4 + 0)) if v % 2 else None)
    if name == "tag_missing_data":
        return girth.tag_missing_data, [r.integers(0, 7, (4, 9)), [1, 2, 3, 4, 5]], {}
    if name == "condition_polytomous_response":
        return girth.condition_polytomous_response, [poly(v)], dict(trim_ends=bool(v % 2))
    if name in ("get_true_false_counts", "convert_responses_to_kernel_sign"):
        return getattr(girth, name), [dich(v)], {}
    if name == "mml_approx":
        return girth.mml_approx, [dich(v)], dict(discrimination=a4[:dich(v).shape[0]])
    if name == "trim_response_set_and_counts":
        x = dich(v)
        return girth.trim_response_set_and_counts, [x, np.arange(1, x.shape[1] + 1)], {}
    if name == "validate_estimation_options":
        return girth.validate_estimation_options, [opts(v)], {}
    if name == "default_options":
        return girth.default_options, [], {}
    if name == "classical_test_statistics":
        return girth.classical_test_statistics, [poly(v)], {}
    if name == "create_beta_LUT":
        def lut(a, b, o, p, al):
            f = girth.create_beta_LUT(a, b, o)
            one = f(al, p)
            np.asarray(one)[...] = 5
            return [f(al, p), f(al * .9, p)]
        return lut, [(.3, 2.5, 25), (-4, 4, 60), opts(v), np.array([.2, .5, .7]), 1.1 + .1 * v], {}
    if name == "LatentPDF":
        def lat(o, w):
            a = U.LatentPDF(o)
            first = np.array(a(w, 0))
            return [first, np.array(a(w, 1)), a.cubic_splines[-1].coefficients, a.compute_metrics(w, first, 2)]
        th = r.standard_normal((40, 1))
        o = opts(v, estimate_distribution=True, number_of_samples=7)
        q = U.LatentPDF(o).quadrature_locations
        return lat, [o, np.exp(-2 * np.square(q[None] - th))], {}
    if name == "CubicSplinePDF":
        def spl(o, c, t):
            a = U.CubicSplinePDF(o)
            a.update_coefficients(c)
            return [a(t), *a.continuous_pdf((-3, 3), 31), a.filter_matrix(t)]
        return spl, [dict(number_of_samples=7, quadrature_bounds=(-4, 4)), r.dirichlet(np.ones(7)), np.linspace(-3, 3, 9)], {}
    if name == "cronbach_alpha":
        return C.cronbach_alpha, [poly(v)], {}
    if name == "entropy":
        return C.entropy, [r.standard_normal((5, 3)), v % 2], {}
    if name == "hyperspherical_vector":
        return C.hyperspherical_vector, [r.uniform(0, 3, 3 + v)], {}
    if name == "hyperspherical_angles":
        return C.hyperspherical_angles, [r.standard_normal(3 + v)], {}
    if name == "contingency_table":
        return C.contingency_table, [r.integers(1, 5, 30), r.integers(1, 5, 30), 1, 4], {}
    if name == "validate_contingency_table":
        return C.validate_contingency_table, [r.integers(0, 3, (4, 4)) * np.array([[1, 0, 1, 1]])], {}
    if name == "polychoric_correlation":
        return C.polychoric_correlation, [poly(v)], dict(start_val=1, stop_val=4, num_processors=1 + v % 2)
    if name == "polychoric_correlation_serial":
        return C.polychoric_correlation_serial, [poly(v)], dict(start_val=1, stop_val=4)
    if name == "polyserial_correlation":
        x = r.standard_normal(60)
        return C.polyserial_correlation, [x, np.digitize(x + r.standard_normal(60), [-.5, .6])], {}
    if name == "procrustes_rotation":
        return C.procrustes_rotation, [r.standard_normal((6, 3)), r.standard_normal((6, 3))], {}
    if name == "reverse_score":
        return C.reverse_score, [poly(v), np.array([True, False, True, False]), 4], {}
    if name == "principal_components_analysis":
        return F.principal_components_analysis, [factors(v)[1]], dict(n_factors=[None, 3][v % 2])
    if name in ("principal_axis_factor", "maximum_likelihood_factor_analysis", "minimum_rank_factor_analysis"):
        return getattr(F, name), [factors(v)[1], 2], dict(initial_guess=np.full(7, .5) if v % 2 or name.startswith("prin") else None)
    if name == "sparsify_loadings":
        return F.sparsify_loadings, [factors(v)[0]], dict(seed=[0, 3, 123456789, 5][v], orthogonal=bool(v % 2), initial_guess=r.uniform(0, 6, 2) if v % 2 else None)
    if name == "create_synthetic_irt_dichotomous":
        args = [b4, a4, r.standard_normal(20)] if v % 2 else [b4, np.c_[a4, a4], r.standard_normal((2, 20))]
        return S.create_synthetic_irt_dichotomous, args, dict(seed=[9, 0, 11, 123456789][v], guessing=[0, .1][v % 2])
    if name == "create_synthetic_irt_polytomous":
        m = ["grm", "pcm", "gum", "grm_md"][v % 4]
        d = np.sort(r.uniform(-1, 1, (3, 3)), axis=1)
        th = r.standard_normal(20)
        if m == "gum":
            d = np.array([[-1., 0, 1], [-.5, .2, .9], [-1.2, .1, 1.4]])
        if m == "grm_md":
            return S.create_synthetic_irt_polytomous, [-d, r.uniform(.3, 1, (3, 2)), r.standard_normal((2, 20))], dict(model=m, seed=[2, 0, 3, 123456789][v])
        return S.create_synthetic_irt_polytomous, [d, 1.2 if v % 3 else np.array([.8, 1.1, 1.3]), th], dict(model=m, seed=[4, 0, 6, 123456789][v])
    raise KeyError(name)


NAMES = (R.DICH + R.POLY + R.MD + R.MD_ABILITY + R.ABILITY +
         ["initial_guess_md", "standard_errors_bootstrap", "tag_missing_data", "condition_polytomous_response", "get_true_false_counts",
          "convert_responses_to_kernel_sign", "mml_approx", "trim_response_set_and_counts", "validate_estimation_options",
          "default_options", "classical_test_statistics", "create_beta_LUT", "LatentPDF", "CubicSplinePDF", "cronbach_alpha",
          "entropy", "hyperspherical_vector", "hyperspherical_angles", "contingency_table", "validate_contingency_table",
          "polychoric_correlation", "polychoric_correlation_serial", "polyserial_correlation", "procrustes_rotation", "reverse_score",
          "principal_components_analysis", "principal_axis_factor", "maximum_likelihood_factor_analysis",
          "minimum_rank_factor_analysis", "sparsify_loadings", "create_synthetic_irt_dichotomous", "create_synthetic_irt_polytomous"])
HEAVY = R.MD + ["grm_mml_eap", "twopl_mml_eap", "gum_mml", "threepl_mml", "grm_jml", "pcm_jml", "initial_guess_md", "minimum_rank_factor_analysis"]


def numbers(res, out=None):
    """Everything numeric in a result, in a fixed order, as a list of arrays."""
    out = [] if out is None else out
    if isinstance(res, dict):
        for k in sorted(res, key=str):
            numbers(res[k], out)
    elif isinstance(res, (list, tuple)):
        for q in res:
            numbers(q, out)
    elif hasattr(res, "cubic_splines"):
        for s in res.cubic_splines:
            numbers(s, out)
        numbers([res.quadrature_locations, res.weights, res.null_distribution, res.n_points], out)
    elif hasattr(res, "coefficients") and hasattr(res, "sample_space"):
        numbers([res.coefficients, res.sample_space, res.delta_sample], out)
    elif callable(res):
        out.append(np.asarray(res(np.linspace(-2, 2, 5)), float))
    elif res is None:
        out.append(np.zeros(0))
    else:
        out.append(np.array(res, dtype=float))     # copy
    return out


def same(a, b, rtol=1e-9, atol=1e-12):
    return len(a) == len(b) and all(p.shape == q.shape and np.allclose(p, q, rtol=rtol, atol=atol, equal_nan=True) for p, q in zip(a, b))


def arrays(res, out=None):
    """The arrays themselves that a result hands over to the caller."""
    out = [] if out is None else out
    if isinstance(res, np.ndarray):
        out.append(res)
    elif isinstance(res, dict):
        for k in res:
            arrays(res[k], out)
    elif isinstance(res, (list, tuple)):
        for q in res:
            arrays(q, out)
    elif hasattr(res, "cubic_splines"):
        arrays([res.quadrature_locations, res.weights, res.null_distribution], out)
        for s in res.cubic_splines:
            arrays([s.coefficients, s.sample_space], out)
    return out


def digest(x):
    """What a caller can see of an argument."""
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.str, x.shape, x.tobytes(), x.flags.writeable)
    if isinstance(x, dict):
        return ("d", tuple((k, digest(q)) for k, q in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(digest(q) for q in x))
    if callable(x):
        return ("f", getattr(x, "__name__", type(x).__name__))
    return ("v", repr(x))
