"""Session.tla: a call is a function of the answers, whatever form they are stored in (Forms). Every routine that takes a table
is called with the same answers in every integer type, boolean, layout, view and read-only memory; SessionTrace compares with
the result for a plain int64 table. Tables are large enough for sums and linear codes to leave the narrow types."""
import numpy as np
from vlib import calls, routines as R
from vlib.fx import fx
SPEC = "SessionTrace"
TIMEOUT = 200
MISS = -99999
TYPES = ["int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64"]
LAYOUTS = ["C", "F", "view", "neg", "ro", "T"]


def models(ctx):
    ctx.model("Session", "SPECIFICATION Spec\nCONSTANTS NKeys = 1 Forms = {\"int8\", \"F\", \"ro\"} Length = %d Emit = FALSE Leak = FALSE\n"
              "VIEW View\nINVARIANTS Functional Remembered\nPROPERTIES FirstUse" % ctx.n(5, 7))


DICH_FN = R.DICH + R.ABILITY + ["mml_approx", "get_true_false_counts", "convert_responses_to_kernel_sign", "trim_response_set_and_counts"]
POLY_FN = R.POLY + ["condition_polytomous_response", "classical_test_statistics", "cronbach_alpha", "reverse_score", "tag_missing_data"]
MD_FN = R.MD + R.MD_ABILITY + ["initial_guess_md"]
CORR_FN = ["polychoric_correlation", "polychoric_correlation_serial", "polychoric_parallel", "contingency_table", "polyserial_correlation"]
SLOW = R.MD + ["threepl_mml", "twopl_mml_eap", "grm_mml_eap", "gum_mml", "grm_jml", "pcm_jml"]
NO_MISSING = ["rasch_conditional", "polyserial_correlation"]


def forms(fn, ctx, missing, boolean):
    ts = ["int64", "int32"] if missing else list(TYPES) + (["bool"] if boolean else [])
    out = [(t, "C") for t in ts if t != "int64"] + [("int64", l) for l in LAYOUTS if l != "C"]
    out += [(ctx.rng.choice(ts), l) for l in ("F", "view", "neg", "ro")]
    return out


def cases(ctx):
    for fn in DICH_FN + POLY_FN + MD_FN + CORR_FN:
        boolean = fn in DICH_FN + MD_FN + ["condition_polytomous_response", "polychoric_correlation", "polychoric_correlation_serial",
                                           "polychoric_parallel", "contingency_table"] + R.POLY
        for variant in range(ctx.n(3 if fn not in SLOW else 2, 6)):
            missing = variant % 3 == 1 and fn not in NO_MISSING + R.MD_ABILITY + ["initial_guess_md"]
            big = variant % 3 == 2
            two = boolean and variant % 2 == 0
            fs = forms(fn, ctx, missing, boolean and two)
            if ctx.quick and fn in SLOW:
                fs = ctx.rng.sample(fs, min(len(fs), 7))
            for t, l in fs:
                yield dict(op="storage", fn=fn, variant=variant, missing=missing, big=big, two=two, dt=t, layout=l)


def table(c):
    rng = np.random.default_rng([3, c["variant"]])
    fn, miss = c["fn"], .07 if c["missing"] else 0
    if fn in DICH_FN:
        n = 6 if not c["big"] else (9 if fn in R.DICH else 40)
        x = R.dich_table(rng, n, 70 if fn in R.DICH else 25, alpha=rng.uniform(.7, 1.8, n), miss=miss)
        x[:, 0], x[:, 1] = 0, 1
        return x
    if fn in MD_FN:
        x = R.md_table(rng, 6, 300 if fn not in R.MD_ABILITY else 20, 2 if c["two"] or "twopl" in fn or fn in R.MD_ABILITY else 3)
        x[:, 0], x[:, 1] = 0, x.max()
        if miss:
            x[rng.random(x.shape) < miss] = MISS
        return x
    if fn in CORR_FN:
        return R.poly_table(rng, 4, 150, 2 if c["two"] else 3, low=0, miss=miss)
    heavy = fn in R.POLY
    n, k = (5, 3) if not c["big"] else ((8, 5) if heavy else (60, 7))
    if c["two"]:
        k = 2
    x = R.poly_table(rng, n, 80 if not c["big"] or heavy else 200, k, low=0 if c["two"] else (1 if not c["big"] or heavy else 100), miss=miss)
    return x


def store(x, dt, layout):
    a = x.astype(dt)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "T":
        return np.ascontiguousarray(a.T).T
    if layout == "view":
        big = np.full((a.shape[0] * 2 + 1, a.shape[1] * 3), 1, dtype=dt)
        v = big[1::2, ::3]
        v[:] = a
        return v
    if layout == "neg":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if layout == "ro":
        a.flags.writeable = False
    return a


def call(fn, x, c):
    import girth, girth.common as C, girth.multidimensional as M
    n = x.shape[0]
    b, a = np.linspace(-1, 1, n), np.linspace(.8, 1.6, n)
    if fn in R.DICH + R.POLY + R.MD:
        o = dict(quadrature_n=21 if fn not in R.MD else 9, max_iteration=4 if fn not in SLOW else 2)
        return R.call(fn, x, o)
    if fn in ("ability_mle", "ability_map", "ability_eap"):
        return getattr(girth, fn)(x, b, a)
    if fn in R.ABILITY:
        return getattr(girth, fn)(x, b, a, np.full(n, .12))
    if fn in R.MD_ABILITY:
        return getattr(girth, fn)(x, b, np.c_[a, a[::-1] - 1], options=dict(quadrature_n=11))
    if fn == "initial_guess_md":
        return M.initial_guess_md(x, 2)
    if fn == "trim_response_set_and_counts":
        return girth.trim_response_set_and_counts(x, np.arange(x.shape[1]))
    if fn == "mml_approx":
        return girth.mml_approx(x, 1.2)
    if fn == "classical_test_statistics" or fn == "cronbach_alpha":
        return getattr(girth if fn[1] == "l" else C, fn)(x)
    if fn == "reverse_score":
        return C.reverse_score(x, np.arange(n) % 2 == 0, 1 if c["two"] else 3 if not c["big"] else 106)
    if fn == "tag_missing_data":
        return girth.tag_missing_data(x, sorted(set(np.unique(x)) - {MISS})[:-1])
    if fn == "contingency_table":
        return C.contingency_table(x[0], x[1], 0, 2)
    if fn == "polyserial_correlation":
        return C.polyserial_correlation(np.linspace(-2, 2, x.shape[1]) ** 3 + x[1], x[0])
    if fn == "polychoric_parallel":
        return C.polychoric_correlation(x, 0, 2, num_processors=2)
    if fn == "polychoric_correlation":
        return C.polychoric_correlation(x, 0, 2, num_processors=1)
    if fn == "polychoric_correlation_serial":
        return C.polychoric_correlation_serial(x, 0, 2)
    return getattr(girth, fn)(x)


BASE = {}


def vector(res):
    v = [w.ravel() for w in calls.numbers(res)]
    shapes = [float(s) for w in calls.numbers(res) for s in (w.ndim, *w.shape)]
    v = np.concatenate([shapes] + v) if v else np.zeros(0)
    if v.size > 600:
        v = np.concatenate([v[:300], [np.nansum(v)], v[300::max(1, v.size // 300)]])
    return [fx(q) for q in v]


def run(c):
    x = table(c)
    key = (c["fn"], c["variant"], c["missing"], c["big"], c["two"])
    if key not in BASE:
        BASE[key] = vector(call(c["fn"], x.copy(), c))
    s = store(x, c["dt"], c["layout"])
    d = calls.digest(s)
    r = vector(call(c["fn"], s, c))
    return dict(op="storage", base=BASE[key], r=r, tol=3 if c["fn"] not in R.DICH + R.POLY + R.MD else 60,
                unchanged=calls.digest(s) == d)
