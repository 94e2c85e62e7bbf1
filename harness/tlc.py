"""Runs TLC."""
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = ROOT + "/spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, cfg, env=None, args=(), workers="1", timeout=600, heap="2g",
        jvm=()):
    """(output, states generated, distinct states)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    path = SPEC + "/" + cfg
    if "\n" in cfg:   # the text of a configuration
        path = meta + "/MC.cfg"
        with open(path, "w") as f:
            f.write(cfg)
        cfg = "(generated)"
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    gc = "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4",
           *jvm, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", workers, "-config", path, *args,
           SPEC + "/" + module + ".tla"]
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, cwd=meta,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError("TLC timed out: %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    m = None
    for m in re.finditer(r"(\d+) states generated(?:.*?), (\d+) distinct", out):
        pass
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return p.returncode, out, gen, dist


def strings(out, prefix):
    """Payloads that a specification printed as "PREFIX payload"."""
    res = []
    for ln in out.split("\n"):
        if ln.startswith('"' + prefix + " "):
            s = ln.rstrip()[1:-1][len(prefix) + 1:]
            res.append(s.replace('\\"', '"').replace("\\\\", "\\"))
    return res
