"""Runs TLC."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import base
from .execute import Charmap, tables


class TLCError(Exception):
    pass


def tlc(module, cfg=None, env=None, args=(), timeout=800, heap="2g", workers=1, cwd=None):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=base.scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap,
           "-Xss64m", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-XX:-UsePerfData", "-Dfile.encoding=UTF-8",
           "-Djava.io.tmpdir=" + meta, "-cp", base.JARS, "tlc2.TLC",
           "-metadir", os.path.join(meta, "states"), "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=cwd or base.SPEC, env=e, capture_output=True, text=True,
                           timeout=timeout, encoding="utf-8", errors="replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


def brief(out):
    """The error message of a TLC run, without the states"""
    m = re.search(r"Error:.*?(?=\nError: The (?:behavior|error)|\nThe behavior|\nState |\Z)", out, re.S)
    return (m.group(0) if m else out)[:3000]


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate(events, name="t", timeout=800):
    """Checks one recorded trace; returns (list of {id, bad}, states)."""
    d = tempfile.mkdtemp(prefix="trace-", dir=base.scratch())
    cm = Charmap()
    tp, vp = os.path.join(d, "trace.ndjson"), os.path.join(d, "verdict.ndjson")
    with open(tp, "w", encoding="utf-8") as f:
        for e in [tables(events)] + events:
            f.write(json.dumps(cm.obj(e), ensure_ascii=False) + "\n")
    rc, out = tlc("GitWhoTrace", env=dict(TRACE=tp, VERDICT=vp), timeout=timeout)
    if rc != 0 or not os.path.exists(vp):
        keep = os.environ.get("VERIF_DEBUG")
        if keep:
            shutil.copy(tp, keep)
        err = TLCError("trace checking failed (%s):\n%s" % (tp, brief(out)))
        at = re.findall(r"^State (\d+):", out, re.M)
        if at:
            err.at = int(at[-1]) - 1    # after k steps the next line is trace[k + 1]
        raise err
    with open(vp, encoding="utf-8") as f:
        v = json.loads(f.readline())
    assert v["lines"] == len(events) + 1
    shutil.rmtree(d, ignore_errors=True)
    return v["verdicts"], stats(out)[1]


def shards(groups, n):
    """Splits a list of event lists over n shards of about equal weight"""
    def weight(es):
        return sum(len(e.get("new", ())) + 3 for e in es)
    out = [[0, []] for _ in range(max(1, min(n, len(groups))))]
    for es in sorted(groups, key=weight, reverse=True):
        s = min(out, key=lambda x: x[0])
        s[0] += weight(es)
        s[1].extend(es)
    return [s[1] for s in out]


def validate_apart(events):
    """As validate.  Output so far off that evaluating the specification on it
    breaks off is a fault of the run that printed it."""
    try:
        return validate(events)
    except TLCError as err:
        if not re.search(r"Attempted to|was not in the domain|evaluating|Overflow", str(err)):
            raise
        verdicts, states = [], 0
        for es in apart(events):
            try:
                v, s = validate(es)
                verdicts, states = verdicts + v, states + s
            except TLCError as err:
                i = getattr(err, "at", None)
                e = es[i] if i is not None and i < len(es) else {}
                if e.get("ev") not in ("run", "fit"):
                    raise
                base.log("cannot be judged: %s" % str(err)[:6000])
                verdicts.append(dict(id=e["id"] if e["ev"] == "run" else e["whole"],
                                     bad=["unintelligible"]))
        return verdicts, states


def apart(events):
    """Scenario by scenario"""
    out = []
    for e in events:
        if e["ev"] == "reset" and not e.get("forget") or not out:
            out.append([])
        out[-1].append(e)
    return out


def validate_all(groups, n=None):
    """groups: one event list per scenario (each starting with a reset)."""
    sh = shards(groups, n or base.NCPU)
    with ThreadPoolExecutor(len(sh)) as ex:
        res = list(ex.map(validate_apart, sh))
    return [x for v, _ in res for x in v], sum(s for _, s in res)
