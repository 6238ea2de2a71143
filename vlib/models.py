"""Model functions for bootstrap runs, importable by spawned processes: they leave a record of every fit."""
import json, os
import numpy as np
from vlib.fx import fx, fxa, exa


def _moments(data, kind):
    x = np.asarray(data, float)[1:]
    if kind == "flat":
        return dict(Difficulty=x.mean(1) - .5, Discrimination=1 + x.std(1))
    if kind == "single":
        return dict(Difficulty=x.mean(1) - .5, Discrimination=float(1 + x.std()))
    if kind == "holes":         # not every resample gives every parameter
        d = x.mean(1) - .5
        a = 1 + x.std(1)
        return dict(Difficulty=np.where(x[:, 0] > 1, np.nan, d), Discrimination=np.where(x[:, 1] > 1, np.nan, a))
    if kind == "padded":        # two thresholds per item, the first item has one only, the last parameter never
        d = np.c_[x.mean(1) - .5, x.mean(1) + x.var(1)]
        d[0, 1] = np.nan
        return dict(Difficulty=d, Discrimination=1 + x.std(1))
    raise ValueError(kind)


def recording(data, options=None, log=None, kind="flat", names=()):
    data = np.asarray(data)
    if kind.startswith("girth:"):
        import girth
        f = getattr(girth, kind[6:])
        out = f(data[1:], *([1.0] if kind[6:].startswith("rasch") else []), options=options)
        res = dict(Difficulty=out["Difficulty"], Discrimination=out["Discrimination"])
    else:
        res = _moments(data, kind)
    rec = dict(sample=exa(data.T), opts=[repr((options or {}).get(n)) for n in names],
               disc=fxa(np.ravel(res["Discrimination"])), diff=fxa(np.ravel(res["Difficulty"])))
    with open(os.path.join(log, "%d.jsonl" % os.getpid()), "a") as h:
        h.write(json.dumps(rec) + "\n")
    return res
