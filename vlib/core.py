"""The common part of all checks: model checking, running cases on the real code, trace validation, verdicts."""
import importlib, json, os, random, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import VERIF, tlc, pool

TRACE_CFG = "SPECIFICATION TraceSpec\nCONSTANT Clauses <- %s\nCHECK_DEADLOCK FALSE\n"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s-%d" % (prop, seed))
        self.scratch = tempfile.mkdtemp(prefix="girth-verif-")
        self.models = []
        self.t0 = time.time()

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def nprng(self, *key):
        import numpy as np
        return np.random.default_rng([self.seed, *[abs(hash_(k)) for k in key]])

    # exhaustive (or simulated) checking of the specification itself
    def model(self, spec, cfg, name=None, env=None, workers=4, args=(), timeout=600):
        _, st, out = tlc.run(spec, cfg, self.scratch, env=env, workers=workers, args=args, timeout=timeout)
        self.models.append(dict(spec=spec, name=name or spec, **st))
        return st

    # cases produced by TLC from the specification: the module writes JSON to IOEnv.OUT
    def generate(self, spec, cfg, env=None, args=(), workers=1, lines=False, timeout=600):
        f = os.path.join(self.scratch, "gen-%d.json" % len(self.models))
        e = dict(env or {}); e["OUT"] = f
        self.model(spec, cfg, name=spec + " (generator)", env=e, args=args, workers=workers, timeout=timeout)
        with open(f) as h:
            return [json.loads(x) for x in h] if lines else json.load(h)


def hash_(k):
    import zlib
    return k if isinstance(k, int) else zlib.crc32(str(k).encode())


def validate(spec, events, scratch, clauses, shards=8, env=None, depth=0):
    """Trace validation with TLC: returns {index: [failing clauses]} and statistics."""
    if not events:
        return {}, {"generated": 0, "distinct": 0}
    order = sorted(range(len(events)), key=lambda j: -len(json.dumps(events[j], separators=(",", ":")))) \
        if len(events) > 1 else [0]
    k = max(1, min(shards, (len(events) + 3) // 4)) if depth == 0 else 1
    groups = [order[j::k] for j in range(k)]

    def one(g):
        d = tempfile.mkdtemp(dir=scratch, prefix="trace-")
        tf, vf = os.path.join(d, "trace.ndjson"), os.path.join(d, "verdict.json")
        with open(tf, "w") as f:
            for j in g:
                f.write(json.dumps(events[j]) + "\n")
        e = dict(env or {}); e.update(TRACE=tf, VERDICT=vf)
        ok, st, out = tlc.run(spec, TRACE_CFG % clauses, scratch, env=e, workers=1, heap="2500m", check=False)
        if ok and os.path.exists(vf):
            v = json.load(open(vf))
            shutil.rmtree(d, ignore_errors=True)
            if v["n"] != len(g):
                raise tlc.TLCError("verdict for %s of %s events" % (v["n"], len(g)))
            return {b["i"]: b["c"] for b in v["bad"]}, st
        if len(g) == 1:
            # outside the domain of the specification: an observation it does not even describe
            sys.stderr.write("TLC cannot evaluate event %s:\n%s\n" % (json.dumps(events[g[0]])[:500], out[-1500:]))
            return {events[g[0]]["i"]: ["OutsideTheSpecification"]}, st
        bad, tot = {}, {"generated": 0, "distinct": 0}
        h = max(1, len(g) // 2)
        for part in (g[:h], g[h:]):
            b, s = one(part)
            bad.update(b)
            for key in tot:
                tot[key] += s[key]
        return bad, tot

    with ThreadPoolExecutor(k) as ex:
        res = list(ex.map(one, groups))
    bad, tot = {}, {"generated": 0, "distinct": 0}
    for b, s in res:
        bad.update(b)
        for key in tot:
            tot[key] += s[key]
    return bad, tot


def known_findings(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def observe(mod, cases, workers, timeout):
    """Runs the real code on every case and turns what happened into events."""
    res = pool.pmap(mod.run, cases, workers=workers, timeout=timeout)
    events = []
    for i, (c, (st, val)) in enumerate(zip(cases, res)):
        e = dict(val) if st == "ok" else {"note": str(val)}
        e["i"], e["st"] = i, st
        e.setdefault("op", c.get("op", "case"))
        events.append(e)
    return events


def main(prop, tier, seed, only_case=None):
    mod = importlib.import_module("checks." + prop)
    ctx = Ctx(prop, tier, seed)
    try:
        if only_case is None:
            cases = list(mod.cases(ctx))
            if hasattr(mod, "models"):
                mod.models(ctx)
        else:
            cases = [only_case]
        try:
            import numpy, scipy.optimize, scipy.stats, scipy.interpolate, scipy.linalg, scipy.special, scipy.signal   # noqa
            sys.dont_write_bytecode = True
            sys.pycache_prefix = os.path.join(ctx.scratch, "pyc")   # no bytecode that could hide an edit
            import girth, girth.common, girth.factoranalysis, girth.synthetic   # noqa: share the import with the workers
        except BaseException as e:
            sys.stderr.write("import of girth failed: %r\n" % (e,))
        if hasattr(mod, "prepare"):
            mod.prepare()
        t1 = time.time()
        events = observe(mod, cases, getattr(mod, "WORKERS", 8), getattr(mod, "TIMEOUT", 120))
        t2 = time.time()
        bad, st = {}, {"generated": 0, "distinct": 0}
        specs = [c.get("spec", mod.SPEC) for c in cases]      # a case may belong to another area's specification
        for spec in sorted(set(specs)):
            b, s = validate(spec, [e for e, q in zip(events, specs) if q == spec], ctx.scratch, getattr(mod, "CLAUSES", "EventClauses"))
            bad.update(b)
            st = {k: st[k] + s[k] for k in st}
        t3 = time.time()
        sys.stderr.write("[%s] %d cases; models %.1fs, code %.1fs, trace validation %.1fs\n"
                         % (prop, len(cases), t1 - ctx.t0, t2 - t1, t3 - t2))
        kf = {k["id"]: k for k in known_findings(prop)}
        seen_kf, viol = {}, []
        for i in sorted(bad):
            c, cl = cases[i], bad[i]
            k = kf.get(c.get("kf"))
            if k and set(cl) <= set(k["clauses"]):
                seen_kf.setdefault(k["id"], []).append(i)
            else:
                viol.append((i, cl))
        for k in seen_kf:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kf[k]["what"], k))
        rep = os.path.join(VERIF, "replays")
        os.makedirs(rep, exist_ok=True)
        for i, cl in viol[:5]:
            path = os.path.join(rep, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "case": cases[i], "event": events[i],
                           "broken_clauses": cl}, f, indent=1)
            print("  %s: case %s breaks %s %s" % (prop, json.dumps(cases[i])[:300], ", ".join(sorted(cl)),
                                                  str(events[i].get("note", ""))[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if len(viol) > 5:
            print("  ... and %d more" % (len(viol) - 5))
        if only_case is None:
            evidence(mod, ctx, cases, events, st, viol, seen_kf)
        print("%s: %d cases, %d broken, %.1f s" % (prop, len(cases), len(viol), time.time() - ctx.t0))
        return 1 if viol else 0
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def evidence(mod, ctx, cases, events, st, viol, seen_kf):
    ops = {}
    for e in events:
        ops[e["op"]] = ops.get(e["op"], 0) + 1
    pick = list(range(len(cases)))
    random.Random(0).shuffle(pick)
    samples = []
    for i in pick[:3]:
        s = json.dumps(cases[i])
        samples.append(cases[i] if len(s) < 1500 else s[:1500] + "...")
    cov = {
        "states": st["distinct"] + sum(m["distinct"] for m in ctx.models),
        "transitions": st["generated"] + sum(m["generated"] for m in ctx.models),
        "traces_validated_against_impl": len(events),
        "samples": samples,
        "models": ctx.models,
        "events_by_kind": ops,
        "trace_specification": ", ".join(sorted({c.get("spec", mod.SPEC) for c in cases})),
        "explanation": (mod.__doc__ or "").strip(),
    }
    d = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
         "assumptions": list(getattr(mod, "ASSUMES", [])) + [
             "TLC, the Python interpreter, numpy and scipy are trusted",
             "the recorded calls stand for the others: the specification is exhaustive within its constants, the code is observed on the generated cases"],
         "wall_s": round(time.time() - ctx.t0, 1), "violations": len(viol)}
    if seen_kf:
        cov["known_findings"] = {k: len(v) for k, v in seen_kf.items()}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)


if __name__ == "__main__":
  try:
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        sys.exit(main(r["property"], r["tier"], r["seed"], only_case=r["case"]))
    sys.exit(main(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))))
  except Exception:
    sys.stderr.write("the check itself failed (no verdict)\n" + traceback.format_exc()[-6000:])
    sys.exit(3)
