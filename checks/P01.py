"""Pool.tla describes work split over processes reading a shared segment; TLC checks every schedule, also with failing units. Association
defines contingency tables (checked for every pair of short vectors) and AssociationTrace compares tables, cleaned tables and matrices of the
real code on 1 to 12 processes with the pairs computed alone; shared segments created during a call are looked for after it."""
import os
import numpy as np
from vlib.fx import fx, mat, exa
SPEC = "AssociationTrace"
TIMEOUT = 120


def models(ctx):
    for u, p, f in [(0, 3, 0), (1, 2, 1), (3, 2, 1), (3, 4, 0), (4, 3, 0)] + ([] if ctx.quick else [(6, 2, 1), (6, 3, 1), (3, 5, 0), (5, 3, 1)]):
        ctx.model("Pool", "SPECIFICATION Spec\nCONSTANTS Units = %d Procs = %d MayFail = %s\nINVARIANTS EveryUnitInPlace ScheduleFree NoDrawTwice "
                  "Reading NothingLeft Balanced AllUnits\nPROPERTY Answers\nCHECK_DEADLOCK FALSE" % (u, p, "TRUE" if f else "FALSE"), workers=4)
    ctx.model("AssociationMC", "SPECIFICATION Spec\nCONSTANTS Grid = {} Vals = {%s} N = %d\nINVARIANT TableCounts" % ("1,2,3,4" if not ctx.quick else "1,2,3", ctx.n(4, 4)), workers=8)


def cases(ctx):
    for k in range(ctx.n(150, 1500)):
        s = 1000 * ctx.seed + k
        start = [1, 0, -2, 5, -9, 100][k % 6]
        yield dict(op="table", seed=s, start=start, stop=start + [4, 1, 3, 0, 6, 2][(k // 6) % 6], n=[40, 7, 1, 120, 0][k % 5], dtype=["int64", "int8", "float64", "int32", "uint8"][(k // 2) % 5],
                   default=k % 12 == 0)
        yield dict(op="clean", seed=s, rows=1 + k % 6, cols=1 + (k // 3) % 6)
    for k in range(ctx.n(30, 150)):
        start = [1, 0, -2, 5][k % 4]
        yield dict(op="matrix", seed=1000 * ctx.seed + k, items=[4, 1, 2, 3, 5, 7][k % 6], n=[40, 25, 100][k % 3], start=start, stop=start + [4, 1, 2, 3][(k // 2) % 4],
                   procs=[[2, 5], [1, 3], [2, 7], [4, 12], [8], [6, 2]][(k + ctx.seed) % 6], dtype=["int64", "int8", "float64", "int32", "uint8"][k % 5], default=k % 6 == 0, layout=k % 3)
    for k in range(ctx.n(6, 30)):               # many respondents, many items
        s = 1000 * ctx.seed + 500 + k
        yield dict(op="table", seed=s, start=[1, 0, -40][k % 3], stop=[5, 12, 3][k % 3], n=[4000, 40000, 1500][k % 3], dtype=["int64", "int8", "float64"][k % 3], default=False)
        yield dict(op="matrix", seed=s, items=[3, 16, 4][k % 3], n=[6000, 60, 1500][k % 3], start=1, stop=[3, 2, 6][k % 3], procs=[[2, 3], [5], [7]][k % 3], dtype="int64", default=False, layout=(k // 3) % 3)
    for k in range(ctx.n(4, 12)):
        yield dict(op="fail", seed=1000 * ctx.seed + k, items=3 + k % 3, n=30, start=1, stop=3, procs=[2, 3 + k % 3], dtype="int64")


class Segments:
    """Names of the shared segments created by this process in the block."""
    def __enter__(self):
        from multiprocessing import shared_memory
        self.cls, self.names = shared_memory.SharedMemory, []
        self.old = self.cls.__init__
        old, names = self.old, self.names

        def init(self, name=None, create=False, size=0):
            old(self, name=name, create=create, size=size)
            if create:
                names.append(self._name.lstrip("/"))
        self.cls.__init__ = init
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.old
        self.left = sum(os.path.exists("/dev/shm/" + n) for n in self.names)


def run(c):
    import girth.common as gc
    rng = np.random.default_rng([72, c["seed"]])
    dt = c.get("dtype")
    if c["op"] == "table":
        start, stop = (1, 5) if c["default"] else (c["start"], c["stop"])
        lo, hi = start - 2, stop + 3
        if dt == "uint8":
            lo, hi = max(lo, 0), max(hi, 2)
        v = rng.integers(lo, hi, (2, c["n"])).astype(dt)
        if dt == "float64" and c["n"]:
            v[0, 0] = np.nan
        t = gc.contingency_table(v[0], v[1]) if c["default"] else gc.contingency_table(v[0], v[1], start, stop)
        return dict(op="table", v1=exa(v[0]), v2=exa(v[1]), start=start, stop=stop, t=exa(t))
    if c["op"] == "clean":
        t = rng.integers(0, 3, (c["rows"], c["cols"])) * (rng.random((c["rows"], c["cols"])) < .5)
        if rng.random() < .5:
            t[rng.integers(c["rows"])] = 0
        if rng.random() < .5:
            t[:, rng.integers(c["cols"])] = 0
        if t.sum() == 0:
            t[0, -1] = 1
        w = t.astype(float) if c["seed"] % 2 else t.copy()
        r = gc.validate_contingency_table(w)
        return dict(op="clean", t=t.tolist(), c=exa(r), untouched=bool((w == t).all()))
    if c.get("default"):
        c["start"], c["stop"] = 1, 5
    a = rng.normal(0, 1, c["n"])
    x = np.array([np.clip(np.round(a * rng.choice([-1, 1]) + rng.normal(0, 1, c["n"]) + (c["start"] + c["stop"]) / 2), c["start"] - 1, c["stop"] + 1) for _ in range(c["items"])])
    x = x.astype("int64" if dt == "uint8" and c["start"] < 0 else dt)
    kw = {} if c.get("default") else dict(start_val=c["start"], stop_val=c["stop"])
    if c["op"] == "fail":
        x[1] = c["stop"] + 5        # nobody has a valid answer

        def fails(f, *a, **k):
            try:
                f(*a, **k)
            except Exception:
                return True
            return False
        par = []
        for p in c["procs"]:
            with Segments() as s:
                f = fails(gc.polychoric_correlation, x, num_processors=p, **kw)
            par.append(dict(failed=f, left=s.left))
        return dict(op="fail", serial=fails(gc.polychoric_correlation_serial, x, **kw), parallel=par)
    x[:, 0] = c["start"]        # somebody gives every item a valid answer
    if c["layout"] == 1:
        x = np.asfortranarray(x)
    elif c["layout"] == 2:
        x = np.repeat(x, 2, axis=1)[:, ::2]
    keep = x.copy()
    ser = gc.polychoric_correlation_serial(x, **kw)
    pairs = [[i + 1, j + 1, fx(gc.polychoric_correlation_serial(x[[j, i]], **kw)[1, 0])] for i in range(c["items"]) for j in range(i)]
    par = []
    for p in c["procs"]:
        with Segments() as s:
            m = gc.polychoric_correlation(x, num_processors=p, **kw)
        par.append(dict(m=mat(m), left=s.left))
    return dict(op="matrix", items=c["items"], serial=mat(ser), parallel=par, pairs=pairs, untouched=bool((x == keep).all()))
