"""Options.tla states which settings are acceptable and what validation returns; OptionsMC explores caller histories (writing
entries, validating, overwriting results) and produces histories by simulation; OptionsTrace judges every replayed history,
every setting given to every routine that takes options, and where the density was evaluated."""
import copy, itertools
import numpy as np
from vlib.fx import fx
from vlib import routines as R
SPEC = "OptionsTrace"
KEYS = ["max_iteration", "distribution", "quadrature_bounds", "quadrature_n", "hyper_quadrature_n", "use_LUT",
        "estimate_distribution", "number_of_samples", "initial_guess", "num_processors"]
ROUTINES = R.DICH + R.POLY + R.MD + R.MD_ABILITY + ["ability_map", "ability_eap", "ability_3pl_map", "ability_3pl_eap",
           "initial_guess_md", "standard_errors_bootstrap", "create_beta_LUT", "LatentPDF"]
QUAD = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "threepl_mml", "grm_mml", "grm_mml_eap", "pcm_mml", "gum_mml",
        "ability_eap", "ability_3pl_eap", "create_beta_LUT", "LatentPDF", "multidimensional_ability_eap"] + R.MD
ITERATIVE = ["twopl_mml", "twopl_mml_eap", "threepl_mml", "grm_mml", "grm_mml_eap", "pcm_mml", "gum_mml",
             "rasch_jml", "onepl_jml", "twopl_jml", "grm_jml", "pcm_jml", "rasch_conditional", "standard_errors_bootstrap"]


def models(ctx):
    ctx.model("OptionsMC", """SPECIFICATION Spec
CONSTANTS Calls = %d Emit = FALSE
VIEW View
INVARIANTS CompleteOrNothing DefaultsValid OverridesOnlyWhatIsGiven
PROPERTIES FreshDefaults""" % ctx.n(4, 5))


def v(k, a=0, b=0):
    return {"k": k, "v": a, "w": b}


WRONG = [v("none"), v("str"), v("float"), v("list0"), v("dict")]
TRY = {"max_iteration": [v("int", 1), v("int", 3), v("int", 0), v("int", -1)] + WRONG,
       "distribution": [v("callable", 1), v("int", 3), v("bool", 1), v("tuple", -300, 300)] + WRONG,
       "quadrature_bounds": [v("tuple", -400, 400), v("list", -350, 500), v("tuple", 300, -300), v("list", 100, 100),
                             v("range", -5, 5), v("int", 5), v("nans"), v("none"), v("str"), v("float"), v("dict")],
       "quadrature_n": [v("int", 8), v("int", 21), v("int", 7), v("int", 0), v("int", -20)] + WRONG,
       "hyper_quadrature_n": [v("int", 8), v("int", 21), v("int", 7), v("int", -20)] + WRONG,
       "use_LUT": [v("bool", 0), v("bool", 1), v("int", 0), v("int", 1), v("callable", 1)] + WRONG,
       "estimate_distribution": [v("bool", 0), v("int", 0), v("int", 1), v("callable", 1)] + WRONG,
       "number_of_samples": [v("int", 5), v("int", 6), v("int", 4), v("int", -9)] + WRONG,
       "initial_guess": [v("bool", 1), v("int", 0), v("int", 1), v("callable", 1)] + WRONG,
       "num_processors": [v("int", 1), v("int", 2), v("tuple", 1, 2), v("callable", 1)] + WRONG}
UNKNOWN = ["Max_iteration", "quadrature", "", "distributions", "use_lut", "max_iter", "verbose", "int:7", "none:"]


def valid(key, x):
    """Used to choose cases only; the verdict is the specification's."""
    return {"max_iteration": x["k"] == "int" and x["v"] > 0, "distribution": x["k"] == "callable",
            "quadrature_bounds": x["k"] in ("tuple", "list") and x["w"] > x["v"],
            "quadrature_n": x["k"] == "int" and x["v"] > 7, "hyper_quadrature_n": x["k"] == "int" and x["v"] > 7,
            "number_of_samples": x["k"] == "int" and x["v"] > 4, "num_processors": x["k"] == "int"}.get(key, x["k"] == "bool")


def cases(ctx):
    rng = ctx.rng
    hists = ctx.generate("OptionsMC", "SPECIFICATION Spec\nCONSTANTS Calls = 9 Emit = TRUE\n", lines=True,
                         args=["-simulate", "num=%d" % ctx.n(250, 2500), "-depth", "12", "-seed", str(ctx.seed)])
    for h in hists:
        yield dict(op="history", steps=h)
    f = "validate_estimation_options"
    for key in KEYS:
        for x in TRY[key]:
            yield dict(op="call", fn=f, c="dict", d=[dict(key=key, x=x)])
    for u in UNKNOWN:
        yield dict(op="call", fn=f, c="dict", d=[dict(key=u, x=v("int", 9))])
        yield dict(op="call", fn=f, c="dict", d=[dict(key="max_iteration", x=v("int", 9)), dict(key=u, x=v("bool", 1))])
    for c in ["none", "empty", "pairs", "tuple", "set", "str", "keys", "number"]:
        yield dict(op="call", fn=f, c=c, d=[])
    # combinations: one wrong entry among right ones, in any position
    for m in range(ctx.n(300, 3000)):
        ks = rng.sample(KEYS, rng.randint(2, 6))
        d = [dict(key=k, x=rng.choice([x for x in TRY[k] if valid(k, x)])) for k in ks]
        if rng.random() < .6:
            j = rng.randrange(len(ks))
            if rng.random() < .25:
                d[j] = dict(key=rng.choice(UNKNOWN), x=v("int", 9))
            else:
                d[j] = dict(key=ks[j], x=rng.choice([x for x in TRY[ks[j]] if not valid(ks[j], x)]))
        yield dict(op="call", fn=f, c="dict", d=d)
    # every routine
    for fn in ROUTINES:
        for key in KEYS:
            wrong = [x for x in TRY[key] if not valid(key, x)]
            for x in (wrong if not ctx.quick else rng.sample(wrong, 2)):
                yield dict(op="call", fn=fn, c="dict", d=[dict(key=key, x=x)])
        yield dict(op="call", fn=fn, c="dict", d=[dict(key=rng.choice(UNKNOWN), x=v("int", 9))])
        yield dict(op="call", fn=fn, c=rng.choice(["pairs", "tuple", "set", "str"]), d=[])
        ok = [dict(key="max_iteration", x=v("int", 2)), dict(key="quadrature_n", x=v("int", 15)), dict(key="initial_guess", x=v("bool", 1))]
        yield dict(op="call", fn=fn, c="dict", d=ok)
        yield dict(op="call", fn=fn, c="dict", d=ok + [dict(key=rng.choice(UNKNOWN), x=v("int", 9))])
        if fn not in R.MD:
            yield dict(op="call", fn=fn, c=rng.choice(["none", "empty"]), d=[])
    for fn in QUAD:
        for n, (a, b) in [(9, (-3., 3.)), (22, (-5., 4.)), (8, (-1.5, 6.))][:ctx.n(2, 3)]:
            for extra in ([{}, {"use_LUT": False}] if fn in ("twopl_mml", "grm_mml") else [{}]):
                yield dict(op="density", fn=fn, n=n, a=a, b=b, extra=extra)
    for fn in ITERATIVE:
        yield dict(op="effect", fn=fn, p={"max_iteration": 1}, q={"max_iteration": 25}, what="max_iteration")
    for fn in ["twopl_mml_eap", "grm_mml_eap"]:
        yield dict(op="effect", fn=fn, p={"hyper_quadrature_n": 8}, q={"hyper_quadrature_n": 61}, what="hyper_quadrature_n")
    for fn in ["twopl_mml", "grm_mml", "pcm_mml", "gum_mml", "twopl_mml_eap", "grm_mml_eap"]:
        yield dict(op="effect", fn=fn, p={"estimate_distribution": True}, q={"estimate_distribution": False}, what="estimate_distribution")
        yield dict(op="effect", fn=fn, p={"estimate_distribution": True, "number_of_samples": 5},
                   q={"estimate_distribution": True, "number_of_samples": 11}, what="number_of_samples")


def dens(k):
    from scipy.stats import norm
    fs = getattr(dens, "fs", None)
    if fs is None:
        fs = dens.fs = {1: norm(0, 1.1).pdf, 2: norm(0.1, 1).pdf}
    return fs[k]


def value(x):
    k = x["k"]
    if k == "int":
        return x["v"]
    if k == "bool":
        return bool(x["v"])
    if k in ("tuple", "list"):
        p = (x["v"] / 100, x["w"] / 100)
        return p if k == "tuple" else list(p)
    return {"callable": lambda: dens(x["v"]), "none": lambda: None, "str": lambda: "21", "float": lambda: 21.0,
            "list0": lambda: [], "dict": lambda: {"a": 1}, "range": lambda: range(x["v"], x["w"]),
            "nans": lambda: (float("nan"), float("nan"))}[k]()


def back(val):
    """A value -> its record (identity for callables)."""
    if isinstance(val, bool):
        return v("bool", int(val))
    if isinstance(val, int):
        return v("int", val)
    if isinstance(val, (tuple, list)) and len(val) == 2 and all(isinstance(q, (int, float)) and q == q for q in val):
        return v("tuple" if isinstance(val, tuple) else "list", round(val[0] * 100), round(val[1] * 100))
    if isinstance(val, tuple):
        return v("nans")
    if callable(val):
        for k in (1, 2):
            if val is dens(k):
                return v("callable", k)
        try:
            z = np.array([-1.5, 0, .7])
            if np.allclose(val(z), np.exp(-z * z / 2) / np.sqrt(2 * np.pi)):
                return v("callable", 0)
        except Exception:
            pass
        return v("callable", 9)
    if val is None:
        return v("none")
    if isinstance(val, list):
        return v("list0")
    if isinstance(val, range):
        return v("range", val.start, val.stop)
    return v({str: "str", float: "float", dict: "dict"}.get(type(val), "other"))


def key_of(k):
    return {"int:7": 7, "none:": None}.get(k, k)


def key_back(k):
    return {7: "int:7", None: "none:"}.get(k, str(k))


def argument(c):
    k = c["c"]
    if k == "dict":
        return {key_of(e["key"]): value(e["x"]) for e in c["d"]}
    return {"none": None, "empty": {}, "pairs": [("max_iteration", 5)], "tuple": (("max_iteration", 5),), "set": {"max_iteration"},
            "str": "max_iteration", "keys": ["max_iteration"], "number": 3}[k]


def entries(d):
    return [dict(key=key_back(k), x=back(x)) for k, x in d.items()]


DATA = {}


def data(fn):
    rng = np.random.default_rng(5)
    poly = fn in R.POLY or fn == "multidimensional_grm_mml"
    if fn in R.MD + ["initial_guess_md"]:
        poly = "md" + str(poly)
        if poly not in DATA:
            DATA[poly] = R.md_table(rng, 6, 300, 3 if poly == "mdTrue" else 2)
        return DATA[poly]
    if poly not in DATA:
        DATA[poly] = R.poly_table(rng, 5, 60, 3, low=0) if poly else R.dich_table(rng, 5, 60, alpha=[.8, 1.2, 1.6, 1., 2.])
    return DATA[poly]


def call_fn(fn, opt):
    import girth, girth.multidimensional
    x = data(fn)
    b, a = np.linspace(-1, 1, 5), np.linspace(.8, 1.5, 5)
    md = np.c_[a, np.linspace(.6, -.4, 5)]
    if fn == "ability_map" or fn == "ability_eap":
        return getattr(girth, fn)(x, b, a, options=opt)
    if fn in ("ability_3pl_map", "ability_3pl_eap"):
        return getattr(girth, fn)(x, b, a, np.full(5, .1), options=opt)
    if fn in R.MD_ABILITY:
        return getattr(girth, fn)(x, b, md, options=opt)
    if fn == "initial_guess_md":
        return girth.multidimensional.initial_guess_md(x, 2, options=opt)
    if fn == "standard_errors_bootstrap":
        return girth.standard_errors_bootstrap(x, girth.twopl_mml, bootstrap_iterations=2, n_processors=1, options=opt, seed=3)
    if fn == "create_beta_LUT":
        return girth.create_beta_LUT((.3, 2, 10), (-3, 3, 10), opt)
    if fn == "LatentPDF":
        import girth.utilities
        return girth.utilities.LatentPDF(opt)
    f = getattr(girth, fn)
    return f(x, 2, options=opt) if fn in R.MD else f(x, options=opt)


def numbers(r):
    out = []
    for k in ("Discrimination", "Difficulty", "Difficulties", "Guessing"):
        if k in r:
            out.append(np.ravel(np.asarray(r[k], float)))
    if "Standard Errors" in r:
        out.append(np.ravel(r["Standard Errors"]["Difficulty"]))
        out.append(np.ravel(r["Solution"]["Difficulty"]))
    return np.nan_to_num(np.concatenate(out))


def run(c):
    import girth
    if c["op"] == "history":
        d, res, steps = [{}, {}], [], []
        for s in c["steps"]:
            s = dict(s)
            if s["a"] == "set":
                d[s["s"] - 1][s["key"]] = value(s["x"])
            elif s["a"] == "clear":
                d[s["s"] - 1].clear()
            elif s["a"] == "validate":
                try:
                    res.append(girth.validate_estimation_options(d[s["s"] - 1]))
                except Exception:
                    res.append({})
            elif s["a"] == "scribble" and s["key"] in res[s["r"] - 1]:
                res[s["r"] - 1][s["key"]] = value(s["x"])
            s["dicts"] = [entries(q) for q in d]
            s["results"] = [entries(q) for q in res]
            steps.append(s)
        return dict(op="history", steps=steps)
    if c["op"] == "call":
        opt = argument(c)
        before = entries(opt) if isinstance(opt, dict) else None
        e = dict(op="call", fn=c["fn"], c=c["c"], d=c["d"], res=[])
        try:
            r = girth.validate_estimation_options(opt) if c["fn"] == "validate_estimation_options" else call_fn(c["fn"], opt)
            e["out"] = "ok"
            if c["fn"] == "validate_estimation_options":
                e["res"] = entries(r)
        except Exception as x:
            e["out"], e["note"] = "raise", repr(x)[:200]
        e["same"] = before is None or entries(opt) == before
        return e
    if c["op"] == "density":
        calls = []

        def pdf(t):
            t = np.asarray(t, float)
            calls.append(dict(n=int(t.size), lo=fx(t.min()), hi=fx(t.max())))
            return np.exp(-t * t / 2) / np.sqrt(2 * np.pi)
        opt = {"distribution": pdf, "quadrature_n": c["n"], "quadrature_bounds": (c["a"], c["b"]), "max_iteration": 2}
        opt.update(c["extra"])
        call_fn(c["fn"], opt)
        return dict(op="density", fn=c["fn"], n=c["n"], a=fx(c["a"]), b=fx(c["b"]), calls=calls[:40])
    p, q = numbers(call_fn(c["fn"], c["p"])), numbers(call_fn(c["fn"], c["q"]))
    return dict(op="effect", fn=c["fn"], what=c["what"], differs=bool(p.shape != q.shape or np.abs(p - q).max() > 1e-7))
