"""Running TLC."""
import os, re, subprocess, shutil, tempfile
from . import SPEC

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run(spec, cfg, scratch, env=None, workers=1, heap="3g", timeout=800, args=(), check=True):
    """Runs TLC on spec/<spec>.tla with the configuration text cfg. Returns (ok, stats, stdout)."""
    d = tempfile.mkdtemp(dir=scratch, prefix="tlc-")
    try:
        cf = os.path.join(d, spec + ".cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-XX:CICompilerCount=2", "-Djava.io.tmpdir=" + d,
               "-cp", JARS, "tlc2.TLC", "-config", cf, "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE",
               "-lncheck", "final", "-checkpoint", "0", "-workers", str(workers), "-deadlock",
               *args, os.path.join(SPEC, spec + ".tla")]
        try:
            p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as t:
            out, rc = (t.stdout or b"").decode("utf8", "replace") if isinstance(t.stdout, bytes) else (t.stdout or ""), -9
        st = {"generated": 0, "distinct": 0, "depth": 0}
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states", out):
            st["generated"], st["distinct"] = (int(g.replace(",", "")) for g in m.groups())
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            st["depth"] = int(m.group(1))
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m and not st["generated"]:
            st["generated"] = int(m.group(1).replace(",", ""))
        ok = rc == 0
        if check and not ok:
            raise TLCError("TLC on %s ended with %s\n%s" % (spec, rc, out[-4000:]))
        return ok, st, out
    finally:
        shutil.rmtree(d, ignore_errors=True)
