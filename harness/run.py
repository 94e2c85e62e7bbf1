"""Runs the program and parses what it reports."""
import math
import re
import subprocess

_NUM = r"(\d+(?:\.\d+)?[kMBT]?)"
COUNT = {
    "fill": r"%s nodes filled", "replacenodes": r"%s nodes replaced",
    "setparam2": r"Set param2 of %s nodes",
    "deletemeta": r"Deleted metadata from %s nodes",
    "deletetimers": r"Deleted %s node timers", "deleteobjects": r"Deleted %s objects",
    "setmetavar": r"Set metadata variable of %s nodes",
    "replaceininv": r"Replaced %s itemstacks in " + _NUM + " nodes"}
BIG = 2000000000


def interval(t):
    """Range of numbers that are abbreviated as t."""
    u = {"k": 3, "M": 6, "B": 9, "T": 12}.get(t[-1])
    if u is None:
        v = int(float(t))
        return [min(v, BIG), min(v, BIG)]
    m = t[:-1]
    d = len(m.split(".")[1]) if "." in m else 0
    v, h = float(m) * 10 ** u, 0.5 * 10 ** (u - d)
    s = max(1.0, v * 2e-7)
    return [min(math.floor(v - h - s), BIG), min(math.ceil(v + h + s), BIG)]


class Result:
    pass


def parse(cmd, out):
    r = {"done": False, "error": False, "count": [0, 0], "count2": [0, 0],
         "fails": [0, 0]}
    lines = re.split(r"[\r\n]", out)
    r["done"] = any(x.strip() == "info: Done." for x in lines)
    r["error"] = any(x.startswith("error: ") for x in lines)
    pat = COUNT.get(cmd)
    for x in lines:
        if not x.startswith("info: "):
            continue
        if pat:
            m = re.search(pat % _NUM, x)
            if m:
                r["count"] = interval(m.group(1))
                if m.lastindex > 1:
                    r["count2"] = interval(m.group(2))
        m = re.search(r"Skipped %s invalid" % _NUM, x)
        if m:
            r["fails"] = interval(m.group(1))
    return r


def run(tool, args, stdin="", timeout=120, env=None, cwd=None):
    r = Result()
    try:
        p = subprocess.run([tool] + args, input=stdin if isinstance(stdin, bytes) else stdin.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        r.rc, r.out, r.err = p.returncode, p.stdout, p.stderr
        r.timeout = False
    except subprocess.TimeoutExpired as e:
        r.rc, r.out, r.err, r.timeout = None, e.stdout or b"", e.stderr or b"", True
    r.out = r.out.decode("utf-8", "replace")
    r.err = r.err.decode("utf-8", "replace")
    return r
