"""Runs a check: generate scenarios, execute them on the real git-who, have
TLC judge the recorded traces against the specification, report."""
import collections, hashlib, json, os, random, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor
from . import base, execute, tlc

REPLAY = os.path.join(base.VERIF, "replay")
EVID = os.path.join(base.VERIF, "evidence")
KNOWN = os.path.join(base.VERIF, "known-findings.txt")
STEP = 1000     # run ids per scenario
GATES = {}


class Scn:
    """Builds one scenario"""
    def __init__(self, **kw):
        self.sc = dict(kw)
        self.steps = self.sc.setdefault("steps", [])
        self.n = 0

    def add(self, ev, **kw):
        self.steps.append(dict(ev=ev, **kw))
        return self

    def step(self, st):
        self.steps.append(st)
        return self

    def run(self, q, **kw):
        self.n += 1
        self.steps.append(dict(ev="run", id=self.n, q=q, **kw))
        return self.n

    def overlap(self, runs, **kw):
        out = []
        for r in runs:
            self.n += 1
            out.append(dict(r, id=self.n))
        self.steps.append(dict(ev="overlap", runs=out, **kw))
        return [r["id"] for r in out]

    def strained(self, q, **kw):
        self.n += 1
        self.steps.append(dict(ev="strained", id=self.n, q=q, **kw))

    def same(self, ids, clause="differs"):
        self.steps.append(dict(ev="same", ids=list(ids), clause=clause))


def number(sc, idx):
    """Makes run ids globally unique"""
    sh = idx * STEP

    def fix(st):
        st = dict(st)
        if "id" in st:
            st["id"] += sh
        if "ids" in st and st.get("ev") == "same":
            st["ids"] = [i + sh for i in st["ids"]]
        if st.get("ev") == "fit":
            st["whole"] += sh
            st["parts"] = [i + sh for i in st["parts"]]
        if "runs" in st:
            st["runs"] = [fix(dict(r)) for r in st["runs"]]
        return st
    sc = dict(sc)
    sc["id"] = idx
    sc["steps"] = [fix(s) for s in sc["steps"]]
    return sc


MANY = 6        # runs that hang before we stop looking for more


def _hangs(more=0):
    fn = os.path.join(base.scratch(), "hangs")
    if more:
        with open(fn, "a") as f:
            f.write("x" * more)
    return os.path.getsize(fn) if os.path.exists(fn) else 0


def _exec(sc, stop=True):
    if stop and _hangs() >= MANY:
        return [], {}, None
    x = execute.Executor(sc)
    x.enough = (lambda: _hangs() >= MANY) if stop else (lambda: False)
    try:
        ev = x.run()
        n = sum(1 for o in x.outcomes.values() if o.timeout)
        if n and stop:
            _hangs(n)
        return ev, {i: (o.argv, o.rc, o.out[:20000], o.err[:4000], o.timeout, o.wall)
                    for i, o in x.outcomes.items()}, None
    except Exception:
        return [], {}, traceback.format_exc()
    finally:
        x.close()


def execute_all(scs, workers=None):
    base.git_who()
    base.scratch()
    for n in ("gitshim", "fstrap"):
        base.native(n)
    execute.shim_dir()
    w = workers or base.NCPU
    if len(scs) == 1:
        return [_exec(scs[0], False)]
    with ProcessPoolExecutor(min(w, len(scs))) as ex:
        return list(ex.map(_exec, scs, chunksize=1))


class HarnessError(Exception):
    pass


def run_scenarios(scs, workers=None, shards=None):
    """Returns (verdicts, outcomes, events by scenario, states)"""
    res = execute_all(scs, workers)
    for sc, (ev, outs, err) in zip(scs, res):
        if err:
            raise HarnessError("scenario %s (%s): %s" % (sc["id"], sc.get("family"), err))
    verdicts, states = tlc.validate_all([ev for ev, _, _ in res], shards)
    outs = {}
    for _, o, _ in res:
        outs.update(o)
    return verdicts, outs, [ev for ev, _, _ in res], states


def known_findings():
    """Lines `finding: property=<id> key=<key> <text>`"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("finding: "):
                    d = dict(x.split("=", 1) for x in line.split()[1:3])
                    out.append((d["property"], d["key"], line.split(None, 3)[3].strip()))
    return out


class Check:
    def __init__(self, pid, families, clauses=None, exclude=(), models=(), racy=False,
                 workers=None, level="model_checking", rule="", assumptions=(), notrun=()):
        self.pid, self.families, self.models = pid, families, models
        self.clauses, self.exclude = clauses, set(exclude)
        self.racy, self.workers, self.level = racy, workers, level
        self.rule, self.assumptions = rule, list(assumptions)
        self.stats = collections.Counter()

    def known(self, sc, rid, bad):
        """Is this what a listed finding says of this very run?"""
        f = next((st.get("finding") for st in sc["steps"] if st.get("id") == rid), None)
        return bool(f) and set(bad) == set(f["bad"]) and \
            any(k[0] == self.pid and k[1] == f["key"] for k in known_findings())

    def relevant(self, bad, fam=None):
        return [c for c in bad if (self.clauses is None or c in self.clauses or c == "unintelligible"
                                   or any(c.startswith(x[:-1]) for x in self.clauses if x.endswith("*")))
                and c not in self.exclude]

    def generate(self, tier, rnd=0):
        out = []
        for name, fn, quick, thorough in self.families:
            n = quick if tier == "quick" else thorough
            for i in range(n):
                rng = random.Random("%d/%s/%s/%d/%d" % (base.SEED, self.pid, name, rnd, i))
                sc = fn(rng, i) if fn.__code__.co_argcount > 1 else fn(rng)
                if sc is None:
                    continue
                if isinstance(sc, Scn):
                    sc = sc.sc
                sc["family"] = name
                out.append(sc)
        return [number(sc, i + 1) for i, sc in enumerate(out)]

    # ---- violations ----
    def report(self, sc, rid, bad, outs, reproduced, tries):
        d = os.path.join(REPLAY, self.pid)
        os.makedirs(d, exist_ok=True)
        key = hashlib.sha256(json.dumps(sc, sort_keys=True, default=str).encode()).hexdigest()[:12]
        fn = os.path.join(d, "%s-%s.json" % (sc.get("family", "x"), key))
        o = outs.get(rid)
        show = lambda bs: bs.decode("utf-8", "replace")[:6000]
        rec = dict(property=self.pid, seed=base.SEED, run=rid, clauses=bad, scenario=sc,
                   reproduced="%d of %d" % (reproduced, tries))
        if o:
            rec.update(argv=o[0], rc=o[1], stdout=show(o[2]), stderr=show(o[3]), timeout=o[4])
        with open(fn, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        base.log("%s: %s: %s (argv %s)" % (self.pid, sc.get("family"), ", ".join(bad),
                                           " ".join(map(str, o[0])) if o else "?"))
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(fn, base.VERIF)),
              flush=True)

    def rerun(self, sc):
        """(relevant clauses by run id, outcomes)"""
        v, outs, _, _ = run_scenarios([sc])
        r = {}
        for x in v:
            b = self.relevant(x["bad"])
            if b:
                r[x["id"]] = b
        return r, outs

    def confirm(self, sc, rid, bad):
        """Repeats the scenario; returns (reproduced, tries, scenario, clauses, outs)"""
        hits, tries = 0, 0
        best = None
        while tries < 5:
            tries += 1
            r, outs = self.rerun(sc)
            if rid in r:
                hits += 1
                best = (r[rid], outs)
                if hits >= 2 or not self.racy:
                    break
        return hits, tries, best

    def minimise(self, sc, rid):
        """Leaves out other runs if the failure stays"""
        def without(pred):
            s = dict(sc)
            s["steps"] = [st for st in sc["steps"] if not pred(st)]
            return s
        cand = without(lambda st: (st["ev"] == "run" and st["id"] != rid) or st["ev"] in ("same", "fit"))
        if len(cand["steps"]) < len(sc["steps"]):
            try:
                r, outs = self.rerun(cand)
                if rid in r:
                    return cand
            except Exception:
                pass
        return sc

    def main(self):
        start = time.time()
        tier = base.TIER if base.TIER in ("quick", "thorough") else "quick"
        budget = float(os.environ.get("VERIF_BUDGET", "0")) or (700 if tier == "thorough" else 0)
        violations, states, transitions, traces = 0, 0, 0, 0
        runs, distinct, samples, cover = 0, set(), [], collections.Counter()
        models = []
        for mdl in self.models:
            m = mdl(tier)
            models.append(m)
            states += m["states"]
            transitions += m["transitions"]
            if m.get("violation"):
                # a design-level counterexample says nothing about the code by itself
                base.log("model %s: %s" % (m["name"], m["violation"]))
                raise HarnessError("model %s fails: %s" % (m["name"], m["violation"]))
        seen, softs = set(), collections.Counter()
        rnd = 0
        while True:
            t_round = time.time()
            scs = self.generate(tier, rnd)
            for k in range(0, len(scs), 400):
                part = scs[k:k + 400]
                if not part:
                    continue
                verdicts, outs, events, st = run_scenarios(part, self.workers)
                states += st
                by = {sc["id"]: sc for sc in part}
                traces += len(part)
                for sc, evs in zip(part, events):
                    transitions += len(evs)
                    for e in evs:
                        if e["ev"] == "run":
                            runs += 1
                            cover["cmd:" + e["q"]["cmd"]] += 1
                            cover["mode:" + e["q"]["mode"]] += 1
                            cover["fate:" + e["fate"]] += 1
                            cover["family:" + sc["family"]] += 1
                            if e["out"]["outlen"]:
                                cover["nonempty"] += 1
                            distinct.add(hashlib.sha1(json.dumps(
                                [sc["family"], e["q"], e["out"]["digest"]], sort_keys=True).encode()).digest())
                    if len(samples) < 4 and sc["id"] % 7 == 1:
                        samples.append(summary(sc, evs))
                bad = [(x["id"], self.relevant(x["bad"])) for x in verdicts]
                bad = [(i, b) for i, b in bad if b and not self.known(by[i // STEP], i, b)]
                for rid, b in bad:
                    sc = by[rid // STEP]
                    sig = (sc["family"], tuple(sorted(b)))
                    if sig in seen or len(seen) >= 4:
                        continue
                    hits, tries, best = self.confirm(sc, rid, b)
                    # what it printed is what it printed, once or always; giving up or
                    # taking too long may be the machine's fault, unless it happens again
                    soft = set(b) <= {"failed", "hang"}
                    softs[tuple(sorted(b))] += 1
                    if hits == 0 and soft and softs[tuple(sorted(b))] < 3:
                        base.log("%s: not reproduced: %s %s" % (self.pid, sc["family"], b))
                        self.stats["unreproduced"] += 1
                        continue
                    seen.add(sig)
                    violations += 1
                    small = sc if self.racy or not hits else self.minimise(sc, rid)
                    self.report(small, rid, best[0] if best else b, best[1] if best else outs, hits, tries)
                if violations:
                    break
            rnd += 1
            took = time.time() - t_round
            if violations or tier == "quick" or time.time() - start + took * 1.1 > budget:
                break
        for kf in known_findings():
            if kf[0] == self.pid:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kf[2]), flush=True)
        cov = dict(states=states, transitions=transitions, traces_validated_against_impl=traces,
                   samples=samples or [m["name"] for m in models], runs_of_git_who=runs,
                   distinct_runs=len(distinct), rule=self.rule, models=models,
                   by=dict(sorted(cover.items())), rounds=rnd)
        if self.level in ("exploration", "fault_enumeration"):
            cov.update(evaluations=runs, distinct_nontrivial=len(distinct))
        ev = dict(property=self.pid, tier=tier, seed=base.SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - start, 2),
                  violations=violations)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        base.log("%s: %d traces, %d runs, %d states, %d violations, %.1f s" %
                 (self.pid, traces, runs, states, violations, time.time() - start))
        if violations:
            return 1
        return 0


def summary(sc, evs):
    out = dict(family=sc["family"], commits=sum(len(e.get("new", ())) for e in evs), events=[])
    for e in evs[:12]:
        if e["ev"] == "run":
            q = {k: v for k, v in e["q"].items() if v not in ([], "", -1, False, 0)}
            out["events"].append(dict(run=q, par=e["par"], rc=e["out"]["rc"],
                                      stdout_bytes=e["out"]["outlen"]))
        elif e["ev"] == "commits":
            out["events"].append(dict(commits=len(e["new"]), head=e["head"], first=e["new"][:1]))
        else:
            out["events"].append({k: v for k, v in e.items() if k != "ids"} if len(str(e)) < 600
                                 else dict(ev=e["ev"]))
    return out


def cli(checks):
    pid = sys.argv[1]
    try:
        rc = checks[pid].main()
    except base.BuildError as e:
        base.log(str(e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
