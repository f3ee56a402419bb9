"""Running TLC. Its outcome is one of: ok, violated (an invariant/property of the model), or Infra."""
import os, re, shutil, subprocess, json
from core import *

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.ok = rc == 0
        self.violated = rc in (10, 11, 12, 13)  # assumption, deadlock, safety, liveness
        self.prints = [l for l in out.splitlines() if l.startswith("<<") or l.startswith('"')]


def tlc(module, cfg=None, env=None, workers=8, timeout=600, heap="6g", simulate=None, depth=None, seed=None,
        extra=(), constants=None, cfg_text=None, want_ok=False, lib=None):
    """module: name in spec/. cfg: file name in spec/ (default module.cfg). constants: appended to the cfg."""
    d = subdir("tlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    if cfg_text is None:
        with open(os.path.join(SPEC, cfg or module + ".cfg")) as f:
            cfg_text = f.read()
    if constants:
        cfg_text += "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in constants.items()) + "\n"
    write(os.path.join(d, "MC.cfg"), cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
           "-config", "MC.cfg", "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Infra("TLC on %s exceeded %ss: %s" % (module, timeout, (x.stdout or b"")[-1500:].decode(errors="replace")))
    out = r.stdout.decode(errors="replace")
    res = TlcResult(out, r.returncode)
    res.dir = d
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    if not res.ok and not res.violated:
        raise Infra("TLC failed on %s (rc %s):\n%s" % (module, r.returncode, out[-6000:]))
    if want_ok and not res.ok:
        raise Infra("TLC reports that the model %s itself breaks its properties:\n%s" % (module, out[-6000:]))
    return res
