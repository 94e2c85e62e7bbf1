#!/usr/bin/env python3
"""check.py --property P01 --tier quick|thorough

Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: error of the check.

1. TLC checks the models that belong to the property (harness/models.py).
2. TLC simulates spec/Gen.tla: shapes of scenarios.
3. The real program, built from /repo, runs them; what it did is recorded.
4. TLC validates the recorded traces against the specification.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build    # noqa: E402
import models   # noqa: E402
import tlc      # noqa: E402
import scen     # noqa: E402
import session  # noqa: E402
import race     # noqa: E402
import argv     # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))

# scenarios per property: (quick, thorough)
TRACES = {"default": (1600, 24000)}
TRACES.update(P04=(900, 12000), P05=(1200, 18000), P06=(900, 12000),
              P13=(1200, 20000), P14=(400, 6000), P15=(800, 12000),
              P16=(700, 10000), P19=(600, 8000), P21=(1300, 20000),
              P22=(300, 4000), P23=(200, 3000), P25=(500, 8000), P26=(500, 8000),
              P18=(2400, 40000), P17=(0, 0), P24=(0, 0), P20=(0, 0))
SESSIONS = dict(P17=(240, 1500), P18=(50, 300), P19=(50, 400), P23=(40, 300),
                P24=(240, 1500))
RACES = dict(P20=(450, 3000))
TIME = {"quick": 80, "thorough": 2700}


def pick(table, prop, tier):
    return table.get(prop, table.get("default", (0, 0)))[0 if tier == "quick" else 1]


def skeletons(prop, num, seed):
    """Scenario shapes: behaviours of spec/Gen.tla."""
    if not num:
        return [], 0
    rc, out, gen, _ = tlc.run("Gen", "Gen.cfg", {"FOCUS": prop},
                              ["-simulate", "num=%d" % num, "-depth", "200",
                               "-seed", str(seed), "-aril", "0"])
    res = [json.loads(s) for s in tlc.strings(out, "GEN")]
    if len(res) < num // 2:
        raise tlc.TlcError("scenario generation failed:\n" + out[-2000:])
    m = re.search(r"number of states generated: (\d+)", out)
    return res, int(m.group(1)) if m else 0


def specials(prop, tier):
    out = []
    if prop in ("P04", "P06"):
        for axis in range(3):
            for sign in (1, -1):
                if prop == "P04" or tier == "thorough":
                    out.append({"special": "bigcopy",
                                "args": [axis, sign, False, prop == "P06"]})
        if prop == "P06" and tier == "quick":
            out.append({"special": "bigcopy", "args": [1, 1, False, True]})
    if prop == "P21":
        out += ([{"special": "bigcount"}] + [{"special": "nearcounts"}]) * (3 if tier == "quick" else 60)
    return out


def session_specials(prop, tier):
    out = []
    if prop in ("P17", "P24"):
        out += [{"special": "many", "cmd": c} for c in session.EDITING]
        out += [{"special": "spill", "cmd": c} for c in
                (("setparam2", "deleteblocks", "fill", "clone", "clone", "overlay",
                  "overlay", "overlay") if tier == "quick"
                 else session.EDITING)]
        out = [{"special": "vast", "cmd": c} for c in
               (("replacenodes", "deleteblocks") if tier == "quick" else session.EDITING)
               ] + out
    if prop == "P19":
        out += [{"special": "many", "cmd": "overlay"}]
    return out


def worker(job):
    """Run scenarios, validate their trace with TLC."""
    kind, prop, tier, tool, shim, todo, tmp, n, deadline = job
    path = "%s/%s%d.ndjson" % (tmp, kind, n)
    rec = scen.Recorder(tool, path)
    done, stats = [], {}
    for sid, seed, g in todo:
        if time.time() > deadline:
            break
        if kind == "trace" and prop == "P18":
            argv.one(rec, prop, sid, seed, g)
        elif kind == "trace":
            scen.one(rec, prop, sid, seed, g)
        elif kind == "session":
            for k, v in session.one(rec, prop, sid, seed, g, shim, tier).items():
                stats[k] = stats.get(k, 0) + v
        elif kind == "race":
            race.one(rec, prop, sid, seed, g, shim, tier)
        done.append(sid)
    rec.close()
    for k, v in rec.__dict__.get("races", {}).items():
        stats["race:" + k] = v
    mod = {"trace": "Trace", "session": "SessionTrace", "race": "Trace"}[kind]
    out, dist = "No error has been found", 0
    if done:
        rc, out, gen, dist = tlc.run(
            mod, mod + ".cfg", {"TRACE": path, "PROPERTY": prop}, timeout=3000,
            heap="3g")
    diffs = [json.loads(s) for s in tlc.strings(out, "DIFF")]
    if "No error has been found" not in out:
        keep = ROOT + "/.build/failed-trace-%s.ndjson" % prop
        shutil.copy(path, keep)
        raise tlc.TlcError("trace validation failed (%s):\n%s" % (keep, out[-3000:]))
    if not os.environ.get("VERIF_KEEP"):
        os.unlink(path)
    return dict(kind=kind, done=done, diffs=diffs, lines=rec.lines, runs=rec.runs,
                states=dist, crashes=rec.crashes, stats=stats)


def plan(prop, tier, seed):
    """[(kind, scenario id, seed, shape)], states of the generator."""
    gs, g1 = skeletons(prop, pick(TRACES, prop, tier), seed)
    todo = [("trace", "s%d" % i, "%s/%d/%d" % (prop, seed, i), g)
            for i, g in enumerate(specials(prop, tier) + gs)]
    gs, g2 = skeletons(prop, pick(SESSIONS, prop, tier), seed + 1000003)
    todo += [("session", "r%d" % i, "%s/%d/r%d" % (prop, seed, i), g)
             for i, g in enumerate(session_specials(prop, tier) + gs)]
    gs, g3 = skeletons(prop, pick(RACES, prop, tier), seed + 2000003)
    todo += [("race", "x%d" % i, "%s/%d/x%d" % (prop, seed, i), g)
             for i, g in enumerate(gs)]
    return todo, g1 + g2 + g3


def validate(prop, tier, tool, shim, tmp, only=None):
    todo, gstates = plan(prop, tier, SEED)
    if only is not None:
        todo = [t for t in todo if t[1] == only]
    deadline = time.time() + TIME[tier]
    # large scenarios first, the rest in chunks so that all cores stay busy
    chunks = [[t] for t in todo if t[3].get("special")]
    for kind, most in (("trace", 100 * (2 if prop == "P18" else 1)), ("session", 20),
                       ("race", 20)):
        rest = [t for t in todo if t[0] == kind and not t[3].get("special")]
        per = max(1, min(most, -(-len(rest) // JOBS)))
        chunks += [rest[i:i + per] for i in range(0, len(rest), per)]
    jobs = [(c[0][0], prop, tier, tool, shim, [t[1:] for t in c], tmp, n, deadline)
            for n, c in enumerate(chunks) if c]
    with cf.ProcessPoolExecutor(JOBS) as ex:
        res = list(ex.map(worker, jobs))
    return {t[1]: t for t in todo}, res, gstates


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="run a single scenario")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="chk-")
    try:
        tool, shim = build.build()
        t1 = time.time()
        mc = models.check(prop, tier, SEED) if a.only is None else []
        by_id, res, gstates = validate(prop, tier, tool, shim, tmp, a.only)
        diffs = [d for r in res for d in r["diffs"]]
        done = [s for r in res for s in r["done"]]
        ndone = len(done)
        crashes = [c for r in res for c in r["crashes"]]
        stats = {}
        for r in res:
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
        cov = dict(states=sum(r["states"] for r in res) + sum(m["distinct"] for m in mc),
                   transitions=sum(r["lines"] for r in res)
                   + sum(m["generated"] for m in mc),
                   model_checking=mc,
                   trace_events=sum(r["lines"] for r in res),
                   traces_validated_against_impl=ndone,
                   program_runs=sum(r["runs"] for r in res),
                   scenario_generator_states=gstates,
                   panics_seen=len(crashes),
                   samples=[by_id[s][3] for s in done[:2] + done[-1:]])
        cov["interleavings"] = {k[5:]: v for k, v in stats.items() if k[:5] == "race:"}
        if "images" in stats:
            cov["crash_images_recovered"] = stats["images"]
            cov["faults_injected"] = stats["faults"]
        ev = dict(property=prop, tier=tier, seed=SEED, level="model_checking",
                  coverage=cov, wall_s=round(time.time() - t0, 1),
                  violations=len(diffs), build_s=round(t1 - t0, 1))
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        with open(ROOT + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
        if ndone == 0:
            raise RuntimeError("no scenario was run")
        if diffs:
            rp = ROOT + "/evidence/replay-%s.json" % prop
            with open(rp, "w") as f:
                json.dump(dict(property=prop, seed=SEED, tier=tier,
                               violations=diffs[:50],
                               scenarios={d["scen"]: by_id[d["scen"]] for d in diffs[:50]},
                               panics=crashes[:20],
                               again="python3 harness/check.py --property %s --tier %s "
                                     "--only %s" % (prop, tier, diffs[0]["scen"])),
                          f, indent=1)
            print("%d of %d scenarios differ; first: %s" %
                  (len({d["scen"] for d in diffs}), ndone, json.dumps(diffs[0])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print("property=%s held: %d scenarios, %d runs, %.0f s" %
              (prop, ndone, cov["program_runs"], time.time() - t0))
        return 0
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
