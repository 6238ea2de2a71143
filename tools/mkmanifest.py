"""Writes /verif/MANIFEST.json from the checks that exist (checks/<id>.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
}
import importlib.util, re
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "checks", p["id"] + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check still being built"})
        continue
    src = open(f).read()
    spec = re.search(r'^SPEC = "(\w+)"', src, re.M).group(1)
    doc = re.match(r'"""(.*?)"""', src, re.S).group(1)
    checks.append({
        "property": p["id"],
        "quick_cmd": "bin/check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification checked with TLC; traces of the real code validated against %s.tla by TLC" % spec,
        "level": "model_checking",
        "level_note": " ".join(doc.split())})
json.dump({"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "GIRTH_VERIF_UNUSED", "enable": "no hooks are needed: the checks observe the public interface only", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
