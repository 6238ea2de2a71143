"""Writes and tries planted bugs (never used by a check).

    plant.py write FILE.py ...   FILE.py defines PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO -> seeded/<name>/
    plant.py try ID ...          stable tests, demo and check of each, in private mount namespaces over /repo and /verif
"""
import json, os, subprocess, sys, shutil, tempfile, textwrap, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "698ff69"
SH = '#!/bin/bash\n. /opt/vp/env.sh 2>/dev/null\nexport PYTHONWARNINGS=ignore\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def write(path):
    ns = {}
    exec(open(path).read(), ns)
    name = os.path.basename(path)[:-3]
    d = tempfile.mkdtemp(dir="/tmp/w")
    shutil.copytree("/repo", d + "/r", symlinks=True)
    r = d + "/r"
    orig = sh(f"git -C {r} show {BASE}:./ >/dev/null; git -C {r} rev-parse {BASE}").stdout
    for f, old, new in ns["EDITS"]:
        old, new = old.strip("\n"), new.strip("\n")
        s = open(f"{r}/{f}").read()
        if s.count(old) != 1:
            print(name, "edit does not match once:", f, s.count(old), repr(old[:80]))
            shutil.rmtree(d)
            return
        open(f"{r}/{f}", "w").write(s.replace(old, new))
    diff = sh(f"git -C {r} diff").stdout
    # every removed line must come from the original repository
    bad, minus = [], 0
    blame = {}
    cur = None
    import re
    for l in diff.split("\n"):
        if l.startswith("--- "):
            cur = l[6:]
            blame[cur] = sh(f"git -C {r} blame -s HEAD -- {cur}").stdout.split("\n")
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            minus += 1
            if not blame[cur][n - 1].lstrip("^").startswith(BASE[:6]):
                bad.append(l)
            n += 1
        elif l.startswith(" "):
            n += 1
    if bad:
        print(name, "WARNING removes lines of a fix:", bad)
    if not minus:
        print(name, "WARNING changes no original line")
    o = f"{V}/seeded/{name}"
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(SH)
    os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.py", "w").write(textwrap.dedent(ns["DEMO"]).strip("\n") + "\n")
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    print(name, "written")


def attempt(name):
    """in a private namespace: tests, demo, check"""
    d = tempfile.mkdtemp(dir="/tmp/w")
    prop = json.load(open(f"{V}/seeded/{name}/meta.json"))["property"]
    shutil.copytree("/repo", d + "/r", symlinks=True)
    shutil.copytree(V, d + "/v", symlinks=True, ignore=shutil.ignore_patterns(".git", "replays", "evidence"))
    shutil.copytree(f"{V}/seeded/{name}", d + "/demo")
    for p in ("replays", "evidence"):
        os.makedirs(d + "/v/" + p)
    a = sh(f"git -C {d}/r apply {V}/seeded/{name}/patch.diff")
    if a.returncode:
        return f"{name}: patch does not apply {a.stderr}"
    clean = sh("cd /repo && bash %s/demo/demo.sh" % d)
    ns = f"mount --bind {d}/r /repo; mount --bind {d}/v /verif; cd /repo; . /opt/vp/env.sh; "
    demo = sh(["unshare", "-Urm", "bash", "-c", ns + f"bash {d}/demo/demo.sh"])
    out = [f"{name} [{prop}] demo clean={clean.returncode} patched={demo.returncode}"]
    if clean.returncode:
        out.append("   clean demo: " + (clean.stdout + clean.stderr)[-300:])
    if "notest" not in sys.argv:
        sh(["unshare", "-Urm", "bash", "-c", ns + f"/opt/venv/bin/python -m pytest -q -n 4 -p no:cacheprovider --timeout=180 -o junit_family=xunit2 --junitxml={d}/j.xml"])
        res = sh(f"python3 /opt/vp/results.py {d}/t.json junit:{d}/j.xml")
        try:
            lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(d + "/t.json"))["passed"])
            out.append(f"tests lost: {sorted(x.split('::')[-1] for x in lost)}")
        except Exception as e:
            out.append(f"tests: {e} {res.stderr[-200:]}")
    if "nocheck" not in sys.argv:
        c = sh(["unshare", "-Urm", "bash", "-c", ns + f"cd /verif; VERIF_SEED=1 VERIF_TIER=quick bin/check {prop}"])
        b = [l for l in c.stdout.split("\n") if "breaks" in l]
        cl = sorted({x.strip() for l in b for x in l.split("breaks")[-1].split(",")})
        viol = sum(l.startswith("VIOLATION") for l in c.stdout.split("\n"))
        out.append(f"CHECK rc={c.returncode} violations={viol} {cl[:6]}" + ("   <<<<<< MISSED" if c.returncode != 1 or not viol else ""))
        if c.returncode not in (0, 1):
            out.append((c.stdout + c.stderr)[-600:])
    shutil.rmtree(d)
    return " | ".join(out)


if __name__ == "__main__":
    if sys.argv[1] == "write":
        for f in sys.argv[2:]:
            write(f)
    else:
        names = [a for a in sys.argv[2:] if a not in ("notest", "nocheck")]
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(attempt, names):
                print(r, flush=True)
