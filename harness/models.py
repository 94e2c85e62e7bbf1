"""Model checking: the specifications themselves.

Algo (how commands are computed) refines Commands; Lifecycle (threads,
transaction, disk, other program) refines Session; in Store the result does not
depend on how a table holds the map.  The thorough tier also
runs wrong variants of both, in which TLC must find a violation: otherwise
the properties would be too weak to tell anything.
"""
import concurrent.futures as cf

import tlc

ALGO = """SPECIFICATION Spec
CONSTANTS
  B = 2
  BlockLimit = 2
  Key <- AlgoKey
  Part = "%(part)s"
  Variant = "%(variant)s"
  CacheCap = %(cap)d
  Samples = %(samples)d
%(check)s
CHECK_DEADLOCK FALSE
"""
LIFE = """SPECIFICATION Spec
CONSTANTS
  Pages = {%(pages)s}
  Bug = "%(variant)s"
INVARIANTS AllOrNothing NoLostUpdate ConsentFirst DoneIsDurable EndState OneVerdict SafeSession
PROPERTIES RefinesSession Ends StoreOnce
CHECK_DEADLOCK FALSE
"""


def algo(part, samples, variant="none", cap=2):
    check = "INVARIANTS Correct SameVerdict" if variant == "none" else "CONSTRAINT Say"
    return ("AlgoMC", ALGO % dict(check=check, part=part, samples=samples, variant=variant, cap=cap),
            dict(model="Algo", part=part, samples=samples, variant=variant, cache=cap))


def life(pages, variant="none"):
    return ("Lifecycle", LIFE % dict(pages=", ".join(map(str, range(1, pages + 1))),
                                     variant=variant),
            dict(model="Lifecycle", pages=pages, variant=variant))


STORE = """SPECIFICATION Spec
CONSTANTS
  Keys = {%(keys)s}
  Vals = {0, 1}
  Variant = "%(variant)s"
INVARIANTS OneRowPerKey SameResult SourceKept
CHECK_DEADLOCK FALSE
"""


def store(keys, variant="none"):
    return ("Store", STORE % dict(keys=", ".join(map(str, range(1, keys + 1))),
                                  variant=variant),
            dict(model="Store", keys=keys, variant=variant))


# parts of Algo -> properties whose commands they compute
PARTS = dict(nodes=("P01", "P02", "P03"), things=("P07", "P08", "P09", "P10", "P11", "P12"),
             clone=("P04",), random=("P04", "P05", "P06"),
             )
PARTS["nodes"] += ("P16", "P21", "P22", "P25")
PARTS["things"] += ("P15", "P21", "P25")
PARTS["random"] += ("P15", "P16", "P22", "P26")
QUICK = dict(nodes=3, things=3, clone=3, random=250)
THOROUGH = dict(nodes=400, things=600, clone=36, random=15000)
WRONG_ALGO = [("nodes", "keep-unused"), ("nodes", "touching"), ("nodes", "next-id"),
              ("nodes", "last-node"), ("nodes", "no-shift"), ("nodes", "part-invert"),
              ("things", "touching"), ("things", "prefilter"), ("things", "trunc"),
              ("random", "keep-dups"), ("random", "merge-id"), ("random", "meta-stays"),
              ("random", "no-invert"), ("clone", "unsorted")]
WRONG_LIFE = ["commitonpanic", "latebegin", "promptlate", "autocommit", "nojournal",
              "nosync", "ignorefail", "earlydone", "waitforever"]
WRONG_STORE = ["while", "unsorted", "miss"]
LIFECYCLE = ("P17", "P18", "P20", "P24")


def jobs(prop, tier):
    """(module, config, description, must it fail?)"""
    out = []
    for part, props in PARTS.items():
        if prop in props:
            if tier == "quick":
                # properties of all commands: the parts take turns
                if prop in ("P21", "P25") and part == "things":
                    continue
                out.append(algo(part, QUICK[part]) + (False,))
                continue
            out.append(algo(part, THOROUGH[part]) + (False,))
            if part in ("clone", "random"):
                for cap in (1, 4):
                    out.append(algo(part, THOROUGH[part] // 3, cap=cap) + (False,))
            for q, v in WRONG_ALGO:
                if q == part:
                    out.append(algo(part, 20 if part != "random" else 400, v) + (True,))
    if prop in LIFECYCLE:
        for n in ((2,) if tier == "quick" else (1, 2, 3)):
            out.append(life(n) + (False,))
        if tier == "thorough":
            out += [life(2, v) + (True,) for v in WRONG_LIFE]
    if prop == "P26":
        out.append(store(3) + (False,))
        if tier == "thorough":
            out += [store(4) + (False,)] + [store(3, v) + (True,) for v in WRONG_STORE]
    return out


def one(job, workers, seed):
    mod, cfg, what, wrong = job
    rc, txt, gen, dist = tlc.run(mod, cfg, args=("-seed", str(seed)), workers=workers,
                                 timeout=3000, heap="5g")
    bad = '"WRONG"' in txt or any(" %s violated" % w in txt for w in ("is", "was", "were"))
    good = "No error has been found" in txt and not bad
    if (wrong and not bad) or (not wrong and not good):
        raise tlc.TlcError("%s %s:\n%s" % (mod, what, txt[-3000:]))
    return dict(what, module=mod, generated=gen, distinct=dist,
                result="violated, as it must be" if wrong else "holds")


def check(prop, tier, seed=1):
    todo = jobs(prop, tier)
    if not todo:
        return []
    if tier == "quick":
        return [one(j, "4", seed) for j in todo]
    with cf.ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda j: one(j, "3", seed), todo))
