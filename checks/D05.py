"""Session.tla is a process using the library: calls, overwritten results, draws from the global random state; calls must be
functions of their arguments. Its histories (TLC simulation) are replayed with every public function on the real library;
SessionTrace judges results against those of a fresh process, argument objects and process-wide state after every step."""
import random, zlib
import numpy as np
from vlib import calls, pool
SPEC = "SessionTrace"
TIMEOUT = 240
REF = {}
PER = 6          # different calls per session
CFG = "SPECIFICATION Spec\nCONSTANTS NKeys = %d Forms = {\"plain\"} Length = %d Emit = %s Leak = FALSE\n"


def models(ctx):
    ctx.model("Session", CFG % (2, ctx.n(5, 7), "FALSE") + """VIEW View
INVARIANTS Functional Remembered ArgsUntouched
PROPERTIES FirstUse OnlyDrawsMoveTheRandomState""", workers=8)


def cases(ctx):
    rng = ctx.rng
    h = ctx.generate("Session", CFG % (PER, 14, "TRUE"), lines=True,
                     args=["-simulate", "num=%d" % ctx.n(400, 1600), "-depth", "16", "-seed", str(ctx.seed)])
    keys = [(n, v) for n in calls.NAMES for v in range(4)]
    rng.shuffle(keys)
    q = list(keys)
    heavy = 0
    for j, steps in enumerate(h):
        ks = []
        if j % 2:           # calls of the same function on different arguments
            ks = [(n, w) for n in {calls.NAMES[(3 * j // 2) % len(calls.NAMES)], rng.choice(["create_beta_LUT", "twopl_mml", "grm_mml", "LatentPDF", "pcm_mml", "onepl_mml"])} for w in range(4)][:PER]
            rng.shuffle(ks)
        while len(ks) < PER:
            if not q:
                q = list(keys)
                rng.shuffle(q)
            ks.append(q.pop())
        yield dict(op="session", keys=ks, steps=steps)


def reference(k):
    np.random.seed(77)
    f, a, kw = calls.build(*k["key"])
    return calls.numbers(f(*a, **kw))


def prepare():
    """The result of every call, each in its own process."""
    ks = [(n, v) for n in calls.NAMES for v in range(4)]
    for k, (st, val) in zip(ks, pool.pmap(reference, [dict(key=k) for k in ks], workers=8, timeout=120, fresh=True)):
        REF[k] = val if st == "ok" else st


def crc(x):
    return zlib.crc32(repr(x).encode()) >> 2


def process_state():
    s = np.random.get_state()
    return crc((s[0], s[1].tobytes(), s[2:], random.getstate()))


def run(c):
    keys = [tuple(k) for k in c["keys"]]
    built, res, classes, steps = {}, [], {}, []
    np.random.seed(c.get("s", 13))
    random.seed(13)
    own = np.random.RandomState(13)
    fp = crc((np.geterr(), np.get_printoptions().get("precision")))
    for i, k in enumerate(keys):
        built[i] = calls.build(*k)
    want = {i: [crc(calls.digest(b)) for b in [*built[i][1], built[i][2]]] for i in built}
    ev = dict(op="session", args=sum(want.values(), []), rnd=process_state(), fp=fp)

    def own_state():
        s = own.get_state()
        return crc((s[0], s[1].tobytes(), s[2:], random.getstate()))
    for s in c["steps"]:
        s = dict(s)
        if s["a"] == "call":
            i = s["k"] - 1
            if s["rebuilt"]:
                built[i] = calls.build(*keys[i])
            f, a, kw = built[i]
            try:
                r = f(*a, **kw)
                n = calls.numbers(r)
            except Exception as e:
                r, n = None, [np.array([-777.0])]
                s["note"] = repr(e)[:200]
            ref = REF.get(keys[i]) if REF else None
            known = classes.setdefault(i, [ref] if isinstance(ref, list) else [])
            for j, q in enumerate(known):
                if calls.same(q, n):
                    s["cls"] = j
                    break
            else:
                known.append(n)
                s["cls"] = len(known) - 1
            if isinstance(ref, str):
                s["cls"] = 99          # not even a fresh process completes the call
            res.append((i, r))
        elif s["a"] == "overwrite":
            i, r = res[s["h"] - 1]
            if isinstance(r, dict) and "Solution" in r and built[i][2].get("solution") is not None:
                r = {q: r[q] for q in r if q != "Solution"}      # the caller's own object, by contract
            for arr in calls.arrays(r):
                if arr.flags.writeable:
                    arr[...] = 1 if arr.dtype == bool else 77
        else:
            np.random.random(3)
            own.random_sample(3)
            s["own"] = own_state()
        s["args"] = sum(([crc(calls.digest(b)) for b in [*built[i][1], built[i][2]]] for i in built), [])
        s["rnd"], s["fp"] = process_state(), crc((np.geterr(), np.get_printoptions().get("precision")))
        steps.append(s)
    ev["steps"] = steps
    return ev
