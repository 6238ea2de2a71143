"""Pool.tla describes work split over processes with one random stream per chunk; TLC checks, for every schedule of small pools, that every
unit is done once, in its place, from its own draws. The bootstrap then runs with a model function that records every table it is given;
BootstrapTrace checks the recorded resamples and options and recomputes standard errors, bias and limits from the recorded fits."""
import glob, hashlib, itertools, json, os, pickle, shutil, tempfile
from functools import partial
import numpy as np
from vlib import models as M
from vlib.fx import fx, fxa, exa, shape
SPEC = "BootstrapTrace"
TIMEOUT = 240
WORKERS = 6


def models(ctx):
    for u, p in [(0, 2), (1, 1), (3, 1), (1, 3), (4, 2), (5, 3)] + ([] if ctx.quick else [(6, 3), (7, 3), (3, 4), (5, 4)]):
        ctx.model("Pool", "SPECIFICATION Spec\nCONSTANTS Units = %d Procs = %d MayFail = FALSE\nINVARIANTS EveryUnitInPlace ScheduleFree NoDrawTwice "
                  "Reading NothingLeft Balanced AllUnits\nPROPERTY Answers\nCHECK_DEADLOCK FALSE" % (u, p), workers=4)


def cases(ctx):
    kinds = ["flat", "holes", "padded", "single", "girth:rasch_mml", "girth:grm_mml", "girth:twopl_jml"]
    k = 0
    for P in [1, 2, 3, 5] if ctx.quick else [1, 2, 3, 4, 5, 8, 13]:
        for v in range((16 if P == 1 else 4) * ctx.n(1, 3)):
            k += 1
            kind = kinds[(k + P) % len(kinds)] if P == 1 else kinds[[0, 1, 2, 5][(v + P) % 4]]
            real = kind.startswith("girth")
            N = [20, 41, 1, 2, 8, 30][(k + ctx.seed) % 6] if not real else 5
            yield dict(op="bootstrap", seed=1000 * ctx.seed + k, P=P, N=N, kind=kind, given=v % 2, bseed=[0, 1, 7, 123456789][(k + v) % 4], n=60 if real else 12 + k % 9,
                       items=4, opt=[None, {}, dict(max_iteration=17), dict(max_iteration=9, quadrature_n=17), dict(use_LUT=False, hyper_quadrature_n=23)][k % 5],
                       noseed=(k % 7 == 0), dtype=["int64", "int8", "int32" if real else "float64", "uint8"][k % 4])
    for P, N, kind in ([(1, 300, "flat"), (3, 150, "holes"), (11, 64, "flat"), (2, 260, "padded")] + ([] if ctx.quick else [(16, 100, "flat"), (4, 1500, "flat"), (1, 2000, "holes")])):
        k += 1                                  # many resamples, many processes
        yield dict(op="bootstrap", seed=1000 * ctx.seed + k, P=P, N=N, kind=kind, given=k % 2, bseed=k, n=14, items=9 if k % 2 else 4, opt=dict(max_iteration=9), noseed=False, dtype="int64")
    yield dict(op="bootstrap", seed=1000 * ctx.seed + 990, P=1, N=20, kind="girth:grm_mml", given=0, bseed=3, n=40, items=4, opt=dict(max_iteration=5), noseed=True, dtype="int64",
               rare=True, kf="B01-lost-category")


def go(c, boot, data, sol, names, seed):
    d = tempfile.mkdtemp(prefix="girth-boot-")
    try:
        f = partial(M.recording, log=d, kind=c["kind"], names=tuple(names))
        out = boot(data, f, bootstrap_iterations=c["N"], n_processors=c["P"], solution=sol, options=c["opt"], seed=seed)
        fits = [json.loads(x) for g in sorted(glob.glob(d + "/*.jsonl")) for x in open(g)]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    part = lambda get: dict(disc=fxa(np.ravel(get("Discrimination"))), diff=fxa(np.ravel(get("Difficulty"))))
    se, bi, ci, so = out["Standard Errors"], out["Bias"], out["95th CI"], out["Solution"]
    lo, hi = (lambda w: ci[w][0]), (lambda w: ci[w][1])
    sh = lambda w: [shape(np.squeeze(x) if w == "Discrimination" and np.ndim(so[w]) == 0 else x) for x in (se[w], bi[w], ci[w][0], ci[w][1])]
    dig = hashlib.sha256(b"".join(np.ascontiguousarray(np.asarray(x[w], float)).tobytes() for w in ("Discrimination", "Difficulty")
                                  for x in (se, bi, {w: ci[w][0]}, {w: ci[w][1]}))).hexdigest()
    same = sol is not None and all(np.array_equal(np.asarray(so[w]), np.asarray(sol[w]), equal_nan=True) for w in ("Discrimination", "Difficulty"))
    return dict(fits=fits, sol=part(lambda w: so[w]), se=part(lambda w: se[w]), bias=part(lambda w: bi[w]), lo=part(lo), hi=part(hi),
                shapes=dict(disc=sh("Discrimination"), diff=sh("Difficulty")), digest=dig, same=bool(same))


def run(c):
    import girth
    os.environ["PYTHONPYCACHEPREFIX"] = "/nonexistent/no-bytecode"
    rng = np.random.default_rng([71, c["seed"]])
    if c["kind"].startswith("girth"):
        top = 2 if "grm" not in c["kind"] else 3
        lo = 1 if top == 3 else 0
        a = rng.normal(0, 1, c["n"])
        x = np.array([np.digitize(a + rng.normal(0, .8, c["n"]), np.linspace(-.4, .4, top - 1)) + lo for _ in range(c["items"])])
        if c.get("rare"):       # one respondent alone gave the highest answer of all items
            x[0, 0] = 4
    else:
        x = rng.integers(0, 3, (c["items"], c["n"]))
    data = np.vstack([np.arange(1, c["n"] + 1), x]).astype(c["dtype"])
    names = sorted(c["opt"] or {})
    sol = None
    if c["given"]:
        d = tempfile.mkdtemp(prefix="girth-boot-")
        sol = M.recording(data[:, ::2] if not c["kind"].startswith("girth") else data, options=girth.utilities.validate_estimation_options(c["opt"]), log=d, kind=c["kind"])
        sol = {k: np.asarray(v) + .25 for k, v in sol.items()}
        shutil.rmtree(d)
    boot = girth.standard_errors_bootstrap
    runs = [go(c, boot, data, sol, names, c["bseed"]) for _ in range(2 if not c["noseed"] else 1)]
    other = []
    if c["N"] > 5 and (c["P"] == 1 or c["noseed"]):
        other = [go(c, boot, data, sol, names, None if c["noseed"] else c["bseed"] + 1)]
        if c["noseed"]:
            runs = [go(c, boot, data, sol, names, None)]
    e = sol if sol is not None else None
    sh = lambda w: runs[0]["shapes"][w.lower()[:4]][0]
    ref = sol
    if ref is None:     # the shape the model function gives
        d = tempfile.mkdtemp(prefix="girth-boot-")
        ref = M.recording(data, options=girth.utilities.validate_estimation_options(c["opt"]), log=d, kind=c["kind"])
        shutil.rmtree(d)
    return dict(op="bootstrap", data=exa(data.T), iters=c["N"], given=bool(c["given"]), opts=[repr((c["opt"] or {})[n]) for n in names], runs=runs, other=other,
                shape=dict(disc=shape(ref["Discrimination"]), diff=shape(ref["Difficulty"])))
