"""Models checked with TLC, and the behaviours they generate."""
import json, os, random, tempfile
from . import base, tlc

_cache = {}


def _run(module, constants, invariants=(), properties=(), spec="Spec", name=None, workers=None,
         args=(), extra=""):
    """One TLC run with its own configuration; returns (description, output)"""
    fd, cfg = tempfile.mkstemp(prefix=module + "-", suffix=".cfg", dir=base.scratch())
    with os.fdopen(fd, "w") as f:
        f.write("SPECIFICATION %s\nCONSTANTS\n" % spec)
        for k, v in constants.items():
            v = ("TRUE" if v else "FALSE") if isinstance(v, bool) else v
            f.write("  %s = %s\n" % (k, v))
        for x in invariants:
            f.write("INVARIANT %s\n" % x)
        for x in properties:
            f.write("PROPERTY %s\n" % x)
        f.write("CHECK_DEADLOCK FALSE\n" + extra)
    rc, out = tlc.tlc(module, cfg=cfg, workers=workers or base.NCPU, args=args, heap="4g")
    gen, dist = tlc.stats(out)
    shown = ", ".join("%s=%s" % (k, v) for k, v in constants.items())
    d = dict(name="%s(%s)" % (name or module, shown), states=dist, transitions=gen,
             checked=list(invariants) + list(properties))
    if rc != 0:
        d["violation"] = tlc.brief(out)
    return d, out


def printed(out, mark="@"):
    """Values a model printed as JSON"""
    for line in out.splitlines():
        if line.startswith('"' + mark):
            yield json.loads(json.loads(line)[len(mark):])


# ---- every repository of a few commits ----
def small_worlds_model(tier):
    return _run("SmallWorlds", dict(MaxLinear=2 if tier == "quick" else 3, Merges=True, TwoDays=True,
                                    Emit=False), ["Fits"], spec="SmallSpec")[0]


def small_worlds():
    """All worlds of three commits and a merge, as lists of commit records"""
    if "sw" not in _cache:
        d, out = _run("SmallWorlds", dict(MaxLinear=3, Merges=True, TwoDays=True, Emit=True),
                      ["Show"], spec="SmallSpec", workers=1)
        if d.get("violation"):
            raise RuntimeError(d["violation"])
        _cache["sw"] = list(printed(out))
    return _cache["sw"]


# ---- the parallel pipeline ----
PIPE_INV = ["OnceAtMost", "OkIsAll", "ErrHasCause", "StoredIsRead", "NeverStuck"]
PIPE_BUGS = ["exit status ignored", "failed batch skipped", "stored too early", "no room for an error",
             "waiter does not wait", "cache error lost", "last error missed", "cacher not waited for"]


def _pipe(n, p, faults, cache=False, bug="none", emit=False, live=False):
    return _run("Pipeline", dict(N=n, P=p, Faults=faults, CacheMayFail=cache, Bug='"%s"' % bug, Emit=emit),
                ["Show"] if emit else PIPE_INV, ["Ends"] if live else [])


def pipeline_model(tier):
    """The design is right, and the model can tell it from wrong ones"""
    d, _ = _pipe(3, 2, 2, True, live=True)
    for n, p, f in ([(4, 3, 2), (5, 2, 2), (3, 4, 3)] if tier != "quick" else []):
        if "violation" not in d:
            e, _ = _pipe(n, p, f, True)
            d.update({k: e[k] for k in e if k == "violation"}, states=d["states"] + e["states"],
                     transitions=d["transitions"] + e["transitions"], name=d["name"] + " " + e["name"])
    for bug in PIPE_BUGS if tier != "quick" else ["last error missed"]:
        e, _ = _pipe(3, 2, 1, bug == "cache error lost", bug)
        d["states"] += e["states"]
        if "violation" not in e:
            d["violation"] = "the model does not notice: " + bug
    d["refuted"] = PIPE_BUGS if tier != "quick" else ["last error missed"]
    return d


def schedules():
    """In which orders git processes may end, and how: [p, n, fin]"""
    if "sched" not in _cache:
        sizes = [(2, 2, 2), (3, 2, 2), (3, 3, 2), (4, 2, 1)]
        if base.TIER == "thorough":
            sizes += [(4, 3, 1), (4, 4, 1)]
        seen = {}
        for n, p, f in sizes:
            d, out = _pipe(n, p, f, emit=True)
            if d.get("violation"):
                raise RuntimeError(d["violation"])
            for x in printed(out):
                seen[json.dumps(x, sort_keys=True)] = x
        _cache["sched"] = [seen[k] for k in sorted(seen)]
    return _cache["sched"]


# ---- the cache on disk ----
DISK_INV = ["Right", "Cached", "Tidy", "Sound"]
DISK_BUGS = {"no checksum": (1, 3, 2, 1, 1), "cut is the end": (1, 3, 2, 1, 1),
             "half a reading is used": (1, 3, 2, 1, 0), "duplicates accepted": (2, 2, 1, 0, 0),
             "damage stays": (1, 3, 2, 1, 0), "leftover dropped": (1, 3, 2, 1, 0)}


def _disk(procs, runs, commits, crash, flip, bug="none"):
    inv = DISK_INV + (["NotDubious"] if procs == 1 else [])
    few = lambda n: "{%s}" % ", ".join(map(str, range(1, n + 1)))
    return _run("CacheDisk", dict(Procs=few(procs), Runs=runs, Commits=few(commits), MaxCrash=crash,
                                  MaxFlip=flip, Bug='"%s"' % bug), inv)[0]


def cachedisk_model(tier):
    """Runs on one cache, one after the other and at once, stopped anywhere"""
    sizes = [(1, 3, 2, 1, 1), (2, 1, 2, 1, 0)]
    if tier != "quick":
        sizes += [(1, 4, 2, 2, 1), (2, 2, 1, 0, 0)]
    d = None
    for z in sizes:
        e = _disk(*z)
        if d is None:
            d = e
        else:
            d.update({k: e[k] for k in e if k == "violation"}, states=d["states"] + e["states"],
                     transitions=d["transitions"] + e["transitions"], name=d["name"] + " " + e["name"])
        if "violation" in d:
            return d
    bugs = list(DISK_BUGS) if tier != "quick" else ["half a reading is used"]
    for bug in bugs:
        e = _disk(*DISK_BUGS[bug], bug=bug)
        d["states"] += e["states"]
        if "violation" not in e:
            d["violation"] = "the model does not notice: " + bug
    d["refuted"] = bugs
    return d


# ---- command lines ----
ARGS_INV = ["DefaultIsTable", "VerboseIsSilent", "AfterDashes", "OneOrder", "DashesAtEnd", "Spelling",
            "KnownRevs"]


def args_model(tier):
    return _run("ArgsModel", dict(MaxLen=2 if tier == "quick" else 3, Emit=False, Sane=tier != "quick", Rand=False),
                ARGS_INV)[0]


def short_lines():
    """All command lines of at most two words"""
    if "args2" not in _cache:
        d, out = _run("ArgsModel", dict(MaxLen=2, Emit=True, Sane=False, Rand=False), ["Show"], workers=1)
        if d.get("violation"):
            raise RuntimeError(d["violation"])
        _cache["args2"] = list(printed(out))
    return _cache["args2"]


def long_lines(num=800):
    """Random longer ones"""
    k = "args-%d" % num
    if k not in _cache:
        d, out = _run("ArgsModel", dict(MaxLen=7, Emit=True, Sane=True, Rand=True), ["Show"], workers=1,
                      args=("-simulate", "num=%d" % num, "-depth", "9", "-seed", str(base.SEED)))
        if d.get("violation"):
            raise RuntimeError(d["violation"])
        seen = {}
        for x in printed(out):
            seen[json.dumps(x["argv"])] = x
        _cache[k] = list(seen.values())
    return _cache[k]


def lines():
    """Short and longer ones, mixed; every slice has some of both"""
    if "lines" not in _cache:
        r = random.Random("lines%d" % base.SEED)
        a, b = list(short_lines()), list(long_lines())
        # most short lines are turned down; those that are not come first
        r.shuffle(a)
        r.shuffle(b)
        good = [x for x in a if x["kind"] == "report"]
        bad = [x for x in a if x["kind"] != "report"]
        out, k = [], 0
        while good or bad or b:
            out += b[:60] + good[:35] + bad[:25]
            del b[:60], good[:35], bad[:25]
        _cache["lines"] = out
    return _cache["lines"]


# ---- what happens to a finished report ----
OUT_INV = ["Beginning", "OkIsWhole", "RoomIsOk", "Observed"]
OUT_BUGS = ["errors of writes ignored", "last write counts", "goes on after an error", "not flushed",
            "error of the flush ignored"]


def output_model(tier):
    """Buffered or not, nothing gets lost without a word; and wrong ways are noticed"""
    n = 4 if tier == "quick" else 5
    def one(buf, bug="none"):
        return _run("Output", dict(MaxPieces=n, MaxPiece=3, Buffer=buf, MaxClear=1, Bug='"%s"' % bug),
                    OUT_INV, ["Ends"] if bug == "none" else [])[0]
    d = one(4)
    for buf in (0, 1) if tier == "quick" else (0, 1, 2, 7):
        if "violation" not in d:
            e = one(buf)
            d.update({k: e[k] for k in e if k == "violation"}, states=d["states"] + e["states"],
                     transitions=d["transitions"] + e["transitions"], name=d["name"] + " " + e["name"])
    for bug in OUT_BUGS:
        e = one(4, bug)
        d["states"] += e["states"]
        if "violation" not in e:
            d["violation"] = "the model does not notice: " + bug
    d["refuted"] = OUT_BUGS
    return d
