"""Executes scenarios on the real git-who and records traces."""
import csv, hashlib, io, json, os, random, re, resource, shutil, signal, subprocess, tempfile, time, zlib
from . import base, model, zones
from .world import GIT, Repo, b

csv.field_size_limit(1 << 30)
ANSI = re.compile(r"\x1b\[[0-9;]*[A-Za-z]")
# display width of the characters that do not take one column
CW = {}
for lo, hi, wd in ((0x300, 0x36f, 0), (0x1100, 0x115f, 2), (0x2e80, 0x303e, 2),
                   (0x3041, 0x33ff, 2), (0x3400, 0x4dbf, 2), (0x4e00, 0x9fff, 2),
                   (0xac00, 0xd7a3, 2), (0xf900, 0xfaff, 2), (0xff00, 0xff60, 2),
                   (0x1f300, 0x1f64f, 2), (0x1f900, 0x1f9ff, 2), (0x20000, 0x2fffd, 2),
                   (0x200b, 0x200d, 0)):
    CW[(lo, hi)] = wd


def chw(c):
    o = ord(c)
    if o < 0x300:
        return 1
    for (lo, hi), wd in CW.items():
        if lo <= o <= hi:
            return wd
    return 1


def width(s):
    return sum(chw(c) for c in s)


class Charmap:
    """Maps characters TLC cannot take one-to-one to private-use ones."""
    def __init__(self):
        self.m = {}

    def ch(self, c):
        if c not in self.m:
            self.m[c] = chr(0xE000 + len(self.m))
        return self.m[c]

    def s(self, s):
        if all(ord(c) < 0xD800 for c in s):
            return s
        return "".join(self.ch(c) if 0xD800 <= ord(c) else c for c in s)

    def obj(self, o):
        if isinstance(o, str):
            return self.s(o)
        if isinstance(o, list) or isinstance(o, tuple):
            return [self.obj(x) for x in o]
        if isinstance(o, dict):
            return {self.s(k): self.obj(v) for k, v in o.items()}
        return o


class Outcome:
    """What one run of git-who did."""
    __slots__ = ("argv", "rc", "out", "err", "t0", "t1", "timeout", "fetched", "wall",
                 "calls", "ops", "raw", "progress")


def session_state(sid, skip=0):
    """(CPU ticks used, whether anything could run) by the processes of a session we started"""
    ticks, busy = 0, False
    for d in os.listdir("/proc"):
        if not d.isdigit() or int(d) == skip:
            continue
        try:
            with open("/proc/%s/stat" % d, "rb") as f:
                x = f.read().rsplit(b")", 1)[1].split()
            if int(x[3]) != sid:
                continue
            ticks += int(x[11]) + int(x[12])
            for t in os.listdir("/proc/%s/task" % d):
                with open("/proc/%s/task/%s/stat" % (d, t), "rb") as f:
                    if f.read().rsplit(b")", 1)[1].split()[0] in (b"R", b"D"):
                        busy = True
        except (OSError, IndexError):
            busy = True
    return ticks, busy


TICK, STILL = 2.0, 5     # a run that does nothing at all for this many ticks hangs


def communicate(p, timeout, skip=0):
    """Like p.communicate(timeout), but gives up early on processes that all
    sleep and use no processor (no stand-in of ours sleeps that long)"""
    end, last, still = time.time() + timeout, None, 0
    while True:
        try:
            return p.communicate(timeout=max(0.01, min(TICK, end - time.time())))
        except subprocess.TimeoutExpired:
            ticks, busy = session_state(p.pid, skip)
            if busy or last is None or ticks > last + 1:
                still = 0
            else:
                still += 1
            last = ticks
            if still >= STILL or time.time() >= end:
                raise


MEMORY = 2 << 30


def confine(p):
    """A git-who that eats memory without end shall die of it itself"""
    try:
        resource.prlimit(p.pid, resource.RLIMIT_DATA, (MEMORY, MEMORY))
    except ProcessLookupError:
        pass
    return p


def run_argv(argv, cwd, env, timeout=60, bin=None, group_kill=False, until=None):
    """until: kill the run (alone, with SIGKILL) as soon as this holds"""
    o = Outcome()
    o.argv = argv
    o.t0 = int(time.time())
    st = time.time()
    p = confine(subprocess.Popen([b(bin or base.git_who())] + [b(a) for a in argv], cwd=cwd,
                                 env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, start_new_session=True))
    o.timeout = False
    try:
        if until:
            while time.time() - st < timeout and p.poll() is None and not until():
                time.sleep(0.002)
            p.kill()
        out, err = communicate(p, timeout)
    except subprocess.TimeoutExpired:
        o.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    if group_kill or until:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    o.wall = time.time() - st
    o.t1 = int(time.time())
    o.rc = p.returncode
    o.out, o.err = out, err
    o.fetched = None
    return o


def run_tty(argv, cwd, env, timeout=60):
    """A run whose output goes to a terminal"""
    import pty, fcntl, struct, termios, threading
    o = Outcome()
    o.argv, o.t0, st = argv, int(time.time()), time.time()
    master, slave = pty.openpty()
    at = termios.tcgetattr(slave)
    at[1] &= ~termios.OPOST
    termios.tcsetattr(slave, termios.TCSANOW, at)
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 80, 0, 0))
    p = confine(subprocess.Popen([b(base.git_who())] + [b(a) for a in argv], cwd=cwd, env=env,
                                 stdin=subprocess.DEVNULL, stdout=slave, stderr=subprocess.PIPE,
                                 start_new_session=True))
    os.close(slave)
    got = []

    def read():
        while True:
            try:
                x = os.read(master, 65536)
            except OSError:
                return
            if not x:
                return
            got.append(x)
    t = threading.Thread(target=read)
    t.start()
    o.timeout = False
    try:
        _, o.err = communicate(p, timeout)
    except subprocess.TimeoutExpired:
        o.timeout = True
        os.killpg(p.pid, signal.SIGKILL)
        _, o.err = p.communicate()
    t.join()
    os.close(master)
    o.wall, o.t1, o.rc, o.fetched = time.time() - st, int(time.time()), p.returncode, None
    o.raw = b"".join(got)
    o.out, o.progress = screen(o.raw)
    return o


CONTROL = re.compile(r"\x1b\[[0-9;]*[A-Za-z]|\r|\n|[^\x1b\r\n]|\x1b")
PROGRESS = re.compile(r" *(\d+)% \(([^ /]*)/([^ ]*) commits\)")


def screen(raw):
    """What is left on a terminal (with its colours), and the progress that
    was shown: lists [percent, done, total] or the text if it is not that"""
    lines, cur, col, progress = [], [], 0, []
    plain = lambda: "".join(x for x in cur if x[0] != "\x1b")

    def note():
        x = plain()
        if x:
            mt = PROGRESS.fullmatch(x)
            progress.append([mt.group(1), mt.group(2), mt.group(3)] if mt else [x])
    for t in CONTROL.findall(text(raw)):
        if t == "\n":
            lines.append("".join(cur))
            cur, col = [], 0
        elif t == "\r":
            col = 0
        elif t == "\x1b[2K":
            note()
            cur = []
        elif t[0] == "\x1b":
            cur.append(t)
        else:
            seen = [i for i, x in enumerate(cur) if x[0] != "\x1b"]
            if col < len(seen):
                cur[seen[col]] = t
            else:
                cur += [" "] * (col - len(seen)) + [t]
            col += 1
    return b("\n".join(lines + ["".join(cur)])), progress


def text(bs):
    return bs.decode("utf-8", "surrogateescape")


def usage(o, q):
    """A usage message is not a report"""
    return (q["badflag"] or q["n"] < 0) and o.rc != 0 and o.out.startswith(b"Usage: ")


def outcome_record(o, q, ids=None):
    rec = dict(rc=o.rc if not o.timeout else 124, hang=bool(o.timeout), outlen=len(o.out) if not usage(o, q) else 0, errlen=len(o.err),
               crash=b"panic:" in o.err or b"fatal error:" in o.err or b"goroutine " in o.err,
               digest=hashlib.sha256(o.out).hexdigest()[:24] + ":" + str(o.rc))
    t = text(o.out)
    line1 = t.split("\n", 1)[0]
    rec["usage"] = line1 if line1.startswith("Usage: git-who") else ""
    if q["cmd"] == "args" and rec["usage"] and o.rc != 0:
        rec["outlen"] = 0
    if q["cmd"] in ("table", "args") and q["csv"]:
        try:
            rows = list(csv.reader(io.StringIO(t, newline=""), strict=True))
        except csv.Error:
            rows = []
        rec["header"] = rows[0] if rows else []
        rec["rows"] = rows[1:]
    if q["cmd"] != "table" or not q["csv"]:
        t = ANSI.sub("", t)
        lines = t.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        else:
            lines.append("<no newline at end>") if t else None
        rec["lines"] = lines
        rec["widths"] = [width(x) for x in lines] if q["cmd"] in ("table", "args") else []
    if o.fetched is not None:
        rec["fetched"] = o.fetched
    if getattr(o, "progress", None) is not None:
        rec["progress"] = o.progress
    return rec


class Executor:
    """Runs one scenario: a dict {id, config, steps} (see model.py)."""

    def __init__(self, sc, dir=None, hook=None):
        self.sc = sc
        self.dir = dir or tempfile.mkdtemp(prefix="sc-", dir=base.scratch())
        self.home = os.path.join(self.dir, "home")
        self.repos = {}
        self.repo = None
        self.events = []
        self.outcomes = {}
        self.extra = {}         # environment of all runs
        self.hook = hook
        self.enough = lambda: False

    def open(self, name, config=()):
        if name not in self.repos:
            self.repos[name] = Repo(os.path.join(self.dir, name), self.home, config, format=self.sc.get("format"))
        self.repo = self.repos[name]

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            return
        subprocess.run(["chmod", "-R", "u+rwx", self.dir], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self):
        self.open(self.sc.get("repo", "repo"), self.sc.get("config", ()))
        self.events.append(dict(ev="reset"))
        for st in self.sc["steps"]:
            getattr(self, "do_" + st["ev"])(st)
            if sum(1 for o in self.outcomes.values() if o.timeout) >= 2 or self.enough():
                break       # enough to report
        return self.events

    # ---- steps ----
    def do_commits(self, st):
        self.repo.commit(st["new"], st["head"], st.get("refs"))
        self.write_ignored_files()
        self.events.append(dict(ev="commits", head=st["head"], new=[
            {k: c[k] for k in ("id", "par", "an", "ae", "at", "ct", "ops")} for c in st["new"]]))

    def write_ignored_files(self):
        pass

    def do_sh(self, st):
        """A git command that leaves the abstract state alone"""
        self.repo.git(*[self.repo.text(x) for x in st["args"]])

    def do_file(self, st):
        """An untracked file (or directory) in the working tree or home"""
        p = os.path.join(self.repo.root if st.get("in", "repo") == "repo" else self.home, st["path"])
        if st.get("text") is None:
            os.makedirs(p, exist_ok=True)
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b(self.repo.text(st["text"])))

    def do_index(self, st):
        for p in st["add"]:
            full = os.path.join(b(self.repo.root), b(p))
            os.makedirs(os.path.dirname(full), exist_ok=True)
            if not os.path.lexists(full):
                with open(full, "wb") as f:
                    f.write(b"added\n")
            self.repo.git("add", "-f", "--", p)
        if st["del"]:
            self.repo.git("rm", "-q", "--cached", "-f", "--", *[":(literal)" + p for p in st["del"]])
        self.events.append(dict(ev="index", add=st["add"], **{"del": st["del"]}))

    def do_mailmap(self, st):
        root = self.repo.root
        p = os.path.join(root, ".mailmap")
        on = False
        if st["repo"] is None:
            if os.path.lexists(p):
                os.unlink(p)
        else:
            on = True
            with open(p, "wb") as f:
                t = self.repo.mailmap_text(st["repo"])
                f.write(b(t[:-1] if st.get("cut") else t))
        cp = st.get("confpath") or os.path.join(self.home, "mailmap.conf")
        full = os.path.join(root, cp)
        if st["conf"] is None:
            if os.path.lexists(full):
                os.unlink(full)
            if st.get("unset", True):
                self.repo.git("config", "--unset-all", "mailmap.file", check=False)
        else:
            on = True
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(b(self.repo.mailmap_text(st["conf"])))
            self.repo.git("config", "mailmap.file", cp)
        strip = lambda es: [{k: e[k] for k in ("nn", "ne", "on", "oe")} for e in (es or [])
                            if not e.get("skip")]
        self.events.append(dict(ev="mailmap", repo=strip(st["repo"]), conf=strip(st["conf"]), on=on))

    def do_ignore(self, st):
        p = os.path.join(self.repo.root, ".git-blame-ignore-revs")
        if st["ids"] is None:
            if os.path.lexists(p):
                os.unlink(p)
        else:
            t = st.get("text")
            if t is None:
                t = "".join("{h:%d}\n" % i for i in st["ids"])
            with open(p, "wb") as f:
                f.write(b(self.repo.text(t)))
        self.events.append(dict(ev="ignore", ids=st["ids"] or []))

    def do_cachelost(self, st):
        shutil.rmtree(os.path.join(self.home, "cache"), ignore_errors=True)
        self.events.append(dict(ev="cachelost"))

    def do_same(self, st):
        self.events.append(dict(ev="same", ids=st["ids"], clause=st["clause"]))

    def do_fit(self, st):
        self.events.append({k: st[k] for k in ("ev", "how", "whole", "parts", "cols")})

    def do_switch(self, st):
        """To another repository (made when new)"""
        self.open(st["to"], self.sc.get("config", ()))
        self.events.append(dict(ev="switch", to=st["to"], clone=False))

    def do_clone(self, st):
        """To a clone of the current repository"""
        old = self.repo
        shutil.copytree(old.root, os.path.join(self.dir, st["to"]), symlinks=True) if st.get("copy") else \
            old.git("clone", "-q", "--no-hardlinks", ".", os.path.join(self.dir, st["to"]))
        r = Repo(os.path.join(self.dir, st["to"]), self.home, self.sc.get("config", ()), existing=True,
                 format=self.sc.get("format"))
        r.hash, r.ids, r.tree, r.head = dict(old.hash), dict(old.ids), dict(old.tree), old.head
        self.repos[st["to"]] = r
        self.repo = r
        if st.get("copy"):
            r.git("reset", "-q", "--hard")
        self.events.append(dict(ev="switch", to=st["to"], clone=True))

    def do_shallow(self, st):
        """To a clone that knows only the newest commits"""
        old, to = self.repo, os.path.join(self.dir, st["to"])
        old.git("clone", "-q", "--depth", str(st["depth"]), "file://" + old.root, to)
        self.adopt(st["to"], old, old.head)
        cut = []
        if os.path.exists(to + "/.git/shallow"):
            with open(to + "/.git/shallow") as f:
                cut = sorted(old.ids[x.strip()] for x in f)
        self.events.append(dict(ev="switch", to=st["to"], clone=True, cut=cut))

    def do_deepen(self, st):
        """The clone learns of more commits"""
        self.repo.git("fetch", "-q", "--deepen=%d" % st["by"] if st.get("by") else "--unshallow", check=False)
        cut, p = [], self.repo.root + "/.git/shallow"
        if os.path.exists(p):
            with open(p) as f:
                cut = sorted(self.repo.ids[x.strip()] for x in f)
        self.events.append(dict(ev="deepen", cut=cut, **{"from": st["of"]}))

    def do_substitute(self, st):
        """git replace: a commit of the same content, by someone else, maybe without parents;
        or just without parents (graft)"""
        c, h = st["c"], self.repo.hash
        if st.get("graft"):
            p = self.repo.root + "/.git/info/grafts"
            old = open(p).read().splitlines() if os.path.exists(p) else []
            new = [x for x in old if x.split()[0] != h[c["id"]]] + ([] if st.get("undo") else [h[c["id"]]])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("".join(x + "\n" for x in new))
            if not new:
                os.unlink(p)
        elif st.get("undo"):
            self.repo.git("replace", "-d", h[c["id"]])
        else:
            env = dict(self.repo.env, GIT_NO_REPLACE_OBJECTS="1")
            for k, n, e_, t in (("AUTHOR", c["an"], c["ae"], c["at"]), ("COMMITTER", "C", "c@committer", c["ct"])):
                env.update({"GIT_%s_NAME" % k: n, "GIT_%s_EMAIL" % k: e_, "GIT_%s_DATE" % k: "@%d +0000" % t})
            p = subprocess.run([GIT, "commit-tree", h[c["id"]] + "^{tree}", "-m", "instead"]
                               + [x for p in c["par"] if not st.get("rootless") for x in ("-p", h[p])],
                               cwd=self.repo.root, env=env, check=True, capture_output=True)
            self.repo.git("replace", "-f", h[c["id"]], p.stdout.decode().strip())
        self.events.append(dict(ev="substitute", rootless=bool(st.get("rootless")) and not st.get("undo"),
                                c={k: c[k] for k in ("id", "par", "an", "ae", "at", "ct", "ops")}))

    def do_original(self, st):
        """Replaced commits no longer count, or do again; back: the commits as they are then"""
        if st["how"] == "env":
            self.extra.pop("GIT_NO_REPLACE_OBJECTS", None)
            if st["on"]:
                self.extra["GIT_NO_REPLACE_OBJECTS"] = "1"
        else:
            self.repo.git(*(["config", "core.useReplaceRefs", "false"] if st["on"] else
                            ["config", "--unset", "core.useReplaceRefs"]))
        for c in st["back"]:
            self.events.append(dict(ev="substitute", rootless=c.get("rootless", False),
                                    c={k: c[k] for k in ("id", "par", "an", "ae", "at", "ct", "ops")}))

    def do_mute(self, st):
        """Submodules git is to ignore"""
        root = self.repo.root
        p = root + "/.gitmodules"
        if os.path.exists(p):
            os.unlink(p)
        for k in ("diff.ignoreSubmodules",) + tuple("submodule.m%d.ignore" % i for i in range(9)):
            self.repo.git("config", "--unset-all", k, check=False)
        if st["how"] == "config":
            self.repo.git("config", "diff.ignoreSubmodules", "all" if st["paths"] else "dirty")
        else:
            for i, x in enumerate(st["named"]):
                self.repo.git("config", "-f", ".gitmodules", "submodule.m%d.path" % i, x)
                if x in st["paths"]:
                    self.repo.git("config", *(["-f", ".gitmodules"] if st["how"] == "file" else []),
                                  "submodule.m%d.ignore" % i, "all")
        self.events.append(dict(ev="mute", paths=st["paths"]))

    def do_attributes(self, st):
        """Files that git is to treat as binary; rules: [kind, text, attribute]"""
        root = self.repo.root
        user = os.path.join(self.home, ".config", "git", "attributes")
        named = os.path.join(self.dir, "named-attributes")
        for p in (user, named):
            if os.path.exists(p):
                os.unlink(p)
        for k in ("core.attributesFile", "core.bigFileThreshold", "attr.tree"):
            self.repo.git("config", "--unset-all", k, check=False)
        self.extra.pop("GIT_ATTR_SOURCE", None)
        line = {"path": "/%s", "under": "%s/**", "ext": "*%s"}
        known = [x for x in text(self.repo.git("ls-files", "-z")).split("\0") if x.split("/")[-1] == ".gitattributes"]
        if known:
            self.repo.git("rm", "-qf", "--cached", "--", *known)
            self.events.append(dict(ev="index", add=[], **{"del": known}))
        for p in [root + "/.gitattributes", root + "/.git/info/attributes"] + [root + "/" + x for x in known]:
            if os.path.exists(p):
                os.unlink(p)
        if st["where"] == "deep":       # in the directories themselves
            for k, t, a in st["rules"]:
                p = "%s/%s/.gitattributes" % (root, t)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b("* " + a + "\n"))
                self.repo.git("add", "-f", p)
            self.events.append(dict(ev="index", add=[t + "/.gitattributes" for _, t, _ in st["rules"]], **{"del": []}))
            self.events.append(dict(ev="attributes", dull=[dict(k=k, t=t) for k, t, _ in st["rules"]]))
            return
        if st["where"] == "size":       # every file is too big
            self.repo.git("config", "core.bigFileThreshold", "1")
            self.events.append(dict(ev="attributes", dull=[dict(k="all", t="")]))
            return
        p = root + ("/.git/info/attributes" if st["where"] == "info" else "/.gitattributes")
        if st["where"] in ("user", "named"):
            p = user if st["where"] == "user" else named
            if p == named:
                self.repo.git("config", "core.attributesFile", named)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if st["where"] in ("tree", "source"):     # of a commit's own
            body = b("".join(line[k] % t + " " + a + "\n" for k, t, a in st["rules"]))
            sha = lambda *a, inp: subprocess.run([GIT] + list(a), cwd=root, env=self.repo.env, input=inp, check=True,
                                                 capture_output=True).stdout.strip()
            blob = sha("hash-object", "-w", "--stdin", inp=body)
            tree = sha("mktree", inp=b"100644 blob " + blob + b"\t.gitattributes\n").decode()
            if st["where"] == "tree":
                self.repo.git("config", "attr.tree", tree)
            else:
                self.extra["GIT_ATTR_SOURCE"] = tree
        elif st["rules"] or st.get("empty"):
            with open(p, "wb") as f:
                f.write(b("".join(line[k] % t + " " + a + "\n" for k, t, a in st["rules"])))
            if st["where"] == "index":
                self.repo.git("add", "-f", ".gitattributes")
                self.events.append(dict(ev="index", add=[".gitattributes"], **{"del": []}))
        self.events.append(dict(ev="attributes", dull=[dict(k=k, t=t) for k, t, _ in st["rules"]]))

    def do_settings(self, st):
        """Settings of git that say how it finds changes"""
        for k, v in st["set"]:
            self.repo.git(*(["config", k, v] if v is not None else ["config", "--unset-all", k]), check=False)
        self.events.append(dict(ev="settings", renames=st["renames"]))

    def do_worktree(self, st):
        """To another working tree of the current repository"""
        old, to = self.repo, os.path.join(self.dir, st["to"])
        if st.get("bare"):
            old.git("clone", "-q", "--bare", ".", to + ".git")
            old.git("--git-dir", to + ".git", "worktree", "add", "-q", "--detach", to, old.hash[st["head"]])
        else:
            old.git("worktree", "add", "-q", "--detach", to, old.hash[st["head"]])
        self.adopt(st["to"], old, st["head"])
        self.events.append(dict(ev="switch", to=st["to"], clone=True, head=st["head"]))

    def adopt(self, to, old, head):
        r = Repo(os.path.join(self.dir, to), self.home, self.sc.get("config", ()), existing=True,
                 format=self.sc.get("format"))
        r.hash, r.ids, r.tree, r.head = dict(old.hash), dict(old.ids), dict(old.tree), head
        self.repos[to] = self.repo = r

    def do_orphan(self, st):
        """HEAD is a branch without commits"""
        self.repo.git("checkout", "-q", "--orphan", "unborn")
        self.repo.git("rm", "-rfq", "--ignore-unmatch", ".")
        self.repo.head = 0
        self.events.append(dict(ev="commits", head=0, new=[]))

    def do_relayout(self, st):
        """The repository's own files move out of the working tree"""
        root = self.repo.root
        if st["how"] == "separate":
            to = os.path.join(self.dir, "git dirs", os.path.basename(root))
            os.makedirs(os.path.dirname(to))
            os.rename(root + "/.git", to)
            with open(root + "/.git", "w") as f:
                f.write("gitdir: %s\n" % to)
        else:               # a submodule of the directory above
            up = os.path.dirname(root)
            subprocess.run([GIT, "init", "-q", "--template=", up], env=self.repo.env, check=True)
            to = up + "/.git/modules/" + os.path.basename(root)
            os.makedirs(os.path.dirname(to))
            os.rename(root + "/.git", to)
            with open(root + "/.git", "w") as f:
                f.write("gitdir: ../.git/modules/%s\n" % os.path.basename(root))
            self.repo.git("config", "core.worktree", "../../../" + os.path.basename(root))

    def do_symlink(self, st):
        """Another way to a directory of the working tree"""
        os.symlink(os.path.join(b(self.repo.root), b(st["to"])), os.path.join(b(self.dir), b(st["name"])))

    def do_replace(self, st):
        """The current repository is removed; another one takes its place"""
        root = self.repo.root
        name = os.path.relpath(root, self.dir)
        subprocess.run(["rm", "-rf", root], check=True)
        del self.repos[name]
        self.open(name, self.sc.get("config", ()))
        self.events.append(dict(ev="reset", forget=True))

    def do_hashfiles(self, st):
        """Commits whose files are named after hashes of earlier commits"""
        i, par = st["id0"], st["parent"]
        for k in range(st["count"]):
            names = sorted({self.repo.hash[par], self.repo.hash[min(self.repo.hash)]})
            ops = [model.w(n, 9 + j) for j, n in enumerate(names) if n not in self.repo.tree[par]]
            if st["rename"] and k:
                have = [n for n in self.repo.tree[par] if len(n) in (40, 64) and n not in names
                        and n in self.repo.ids]
                new = self.repo.hash[par]
                if have and new not in self.repo.tree[par]:
                    ops = [model.move(have[0], new)]
            c = model.commit(i, [par], st["an"], st["ae"], st["at"] + k, st["at"] + k, ops)
            self.do_commits(dict(new=[c], head=i))
            par, i = i, i + 1

    def run_env(self, st, q):
        env = dict(self.repo.env)
        env["TZ"] = q["tz"]
        env["GOMAXPROCS"] = str(st.get("par", 8))
        if not q["cache"]:
            env["GIT_WHO_DISABLE_CACHE"] = ("1", "true", "0", "no", " ")[st["id"] % 5]
        env.update(self.extra)
        env.update(st.get("env", {}))
        if st.get("noxdg"):
            env.pop("XDG_CACHE_HOME", None)
        return env

    def shim(self, st, env):
        """Puts the recording stand-in for git on PATH; returns its directory"""
        d = tempfile.mkdtemp(prefix="shim-", dir=self.dir)
        env["PATH"] = shim_dir() + ":" + env["PATH"]
        env["GWV_LOG"] = d
        env["GWV_GIT"] = GIT
        if st.get("plan"):
            with open(os.path.join(d, ".plan"), "w") as f:
                f.write("".join(x + "\n" for x in st["plan"]))
            env["GWV_PLAN"] = os.path.join(d, ".plan")
        return d

    def shim_result(self, d, o):
        o.fetched, o.calls = [], []
        for fn in sorted(os.listdir(d)):
            if fn.startswith("."):
                continue
            o.calls.append(fn.split(".")[1])
            with open(os.path.join(d, fn)) as f:
                o.fetched += [self.repo.ids.get(x.strip(), 0) for x in f if x.strip()]
        shutil.rmtree(d, ignore_errors=True)

    def prepare(self, st):
        q = st["q"]
        argv = [self.repo.text(a) for a in (st["args"] if "args" in st else st.get("argv") or model.argv(q))]
        if any("{T}" in a or "{D}" in a for a in argv):   # the top directory, ours
            argv = [a.replace("{T}", os.path.realpath(self.repo.root)).replace("{D}", self.dir) for a in argv]
        cwd = os.path.join(b(self.repo.root), b(q["cwd"]))
        env = self.run_env(st, q)
        # what the shell says, which git -C and others leave behind
        env["PWD"] = st["pwd"] if "pwd" in st else (self.dir if st.get("alias") == "dir" else text(cwd).rstrip("/"))
        if st.get("via") is not None:       # through a symbolic link
            cwd = os.path.join(b(self.dir), b(st["via"]), b(q["cwd"][len(st.get("below", "")):]))
            env["PWD"] = text(cwd).rstrip("/")
        if st.get("at"):
            cwd = os.path.join(b(self.dir), b(st["at"]))
            env["PWD"] = text(cwd).rstrip("/")
        if st.get("env_dir"):   # told where the repository is
            way = (lambda p: p) if st["env_dir"] == "abs" else (lambda p: os.path.relpath(p, text(cwd)))
            env["GIT_DIR"] = way(self.repo.root + "/.git")
            if q["cwd"] or st.get("env_tree"):
                env["GIT_WORK_TREE"] = way(self.repo.root)
        return q, argv, cwd, env

    def do_run(self, st):
        q, argv, cwd, env = self.prepare(st)
        sd = None
        before = self.snapshot() if st.get("disk", self.sc.get("disk")) else None
        if st.get("plan") or st.get("shim", self.sc.get("shim")):
            sd = self.shim(st, env)
        if st.get("tty"):
            o = run_tty(argv, cwd, env)
        elif st.get("fs") is not None:
            o = self.strapped([(st, argv, cwd, env)], st["fs"])[0]
        elif st.get("alias"):       # as a command of git
            d = tempfile.mkdtemp(prefix="shim-", dir=self.dir)
            os.symlink(base.git_who(), os.path.join(d, "git-who"))
            env["PATH"] = d + ":" + env["PATH"]
            if st["alias"] == "dir":
                o = run_argv(["-C", cwd, "who"] + argv, self.dir, env, bin=GIT)
            else:
                o = run_argv(["who"] + argv, cwd, env, bin=GIT)
        else:
            o = run_argv(argv, cwd, env, timeout=st.get("timeout", 60), group_kill=bool(sd),
                         until=(lambda: os.path.exists(os.path.join(sd, ".hung." + st["hang"])))
                         if st.get("hang") else None)
        if sd:
            self.shim_result(sd, o)
        after = self.snapshot() if before else None
        self.record(st, q, o, self.disk(before, after) if before else None)

    # ---- what is on disk ----
    def cache_root(self, noxdg=False):
        return os.path.join(self.home, ".cache" if noxdg else "cache", "git-who")

    def snapshot(self):
        """Everything below the scenario's directory: path -> identity"""
        out = {}
        # the place used without XDG_CACHE_HOME counts as outside
        import pwd
        d = os.path.join(pwd.getpwuid(os.getuid()).pw_dir, ".cache", "git-who")
        for dp, dn, fn in os.walk(b(d)):
            out[dp] = ("dir", tuple(sorted(fn)))
        for dp, dn, fn in os.walk(b(self.dir)):
            dn[:] = [x for x in dn if not (dp == b(self.dir) and x.startswith((b"shim-", b"fs-")))]
            if dp != b(self.dir):       # its own times change with our helpers
                st = os.lstat(dp)
                out[dp] = ("dir", st.st_mode, 0 if dp == b(self.home) else st.st_mtime_ns)
            for x in fn:
                p = os.path.join(dp, x)
                st = os.lstat(p)
                h = b""
                if not os.path.islink(p):
                    with open(p, "rb") as f:
                        h = hashlib.sha1(f.read()).digest()
                out[p] = ("file", st.st_mode, st.st_mtime_ns, st.st_size, h)
        return out

    def disk(self, before, after):
        roots = [b(self.cache_root(x)) for x in (False, True)]
        above = {os.path.dirname(r) for r in roots} | set(roots)
        outside, touched, files, made = [], set(), [], False
        for p in sorted(set(before) | set(after)):
            inside = any(p == r or p.startswith(r + b"/") for r in roots)
            same = before.get(p) == after.get(p)
            if not inside:
                if p in above:          # the directory above the cache may be made
                    made |= p not in before
                elif not same:
                    outside.append(text(os.path.relpath(p, b(self.dir))))
                continue
            isfile = (after.get(p) or before[p])[0] == "file"
            if p not in before:
                made = True
            if isfile:
                d = os.path.relpath(os.path.dirname(p), b(self.dir))
                if not same:
                    touched.add(text(d))
                if p in after:
                    with open(p, "rb") as f:
                        kind = "gz" if f.read(2) == b"\x1f\x8b" else "other"
                    files.append([text(d), text(os.path.basename(p)), kind])
        return dict(outside=outside, touched=sorted(touched), files=files, made=made)

    def record(self, st, q, o, disk=None):
        self.outcomes[st["id"]] = o
        rq = dict(q)
        rq["revs"] = [dict(k=r["k"], a=r["a"], b=r["b"]) for r in q["revs"]]
        rq["paths"] = [dict(s=p["s"], x=p["x"], m=p["m"]) for p in q["paths"]]
        fate = st.get("fate", "ok")
        if fate == "killed?":
            fate = "killed" if o.rc == -9 else "fsfail"
        elif fate == "gitfail?":
            # only if the process meant to fail was started
            fate = "gitfail" if any(self.fired(o, rule) for rule in st["plan"]) else "ok"
        self.events.append(dict(ev="run", id=st["id"], q=rq, par=st.get("par", 8), fate=fate,
                                now0=o.t0, now1=o.t1, out=outcome_record(o, q)))
        e = self.events[-1]
        if o.fetched is not None and not st.get("nofetch"):
            e["out"]["fetched"] = o.fetched
        else:
            e["out"].pop("fetched", None)
        if disk is not None:
            e["out"]["disk"] = disk
        if st.get("keep"):
            e["keep"] = True
        if "args" in st:        # what it asks for is for the specification to say
            e["args"] = [self.repo.text(a) for a in st["args"]]
            e["names"] = {self.repo.text(k): v for k, v in st["names"].items()}
            e["files"], e["dates"] = st["files"], st["dates"]
        if self.hook:
            self.hook(self, st, o)

    def fired(self, o, rule):
        kind, ix, act = rule.split()[:3]
        if act not in ("cut", "kill", "last", "exit", "deny", "hang"):
            return False
        n = len([k for k in o.calls if k == kind or kind == "any"])
        return n > 0 if ix == "*" else n > int(ix)

    def strapped(self, runs, instr, common=()):
        """Runs under fstrap.  instr: fault lines for the (single) program"""
        d = tempfile.mkdtemp(prefix="fs-", dir=self.dir)
        spec = ["root " + (os.path.join(d, "out0") if runs[0][0].get("tight") else os.path.join(self.home, "cache")),
                "log " + os.path.join(d, "ops")]
        spec += list(common)
        for i, (st, argv, cwd, env) in enumerate(runs):
            link = os.path.join(d, "cwd%d" % i)
            os.symlink(cwd, b(link))
            spec.append("prog %s/out%d %s/err%d %s" % (d, i, d, i, link))
            for a in [base.git_who()] + argv:
                spec.append("arg " + a)
            for k in ("PATH", "HOME", "TZ", "GOMAXPROCS", "XDG_CACHE_HOME", "GIT_WHO_DISABLE_CACHE",
                      "GIT_CONFIG_GLOBAL", "GIT_CONFIG_NOSYSTEM", "LC_ALL", "GWV_LOG", "GWV_GIT",
                      "GWV_PLAN"):
                if k in env:
                    spec.append("env %s=%s" % (k, env[k]))
            spec += st.get("faults", [])
        spec += list(instr)
        with open(os.path.join(d, "spec"), "wb") as f:
            f.write(b("".join(x + "\n" for x in spec)))
        t0, st_ = int(time.time()), time.time()
        p = confine(subprocess.Popen([base.native("fstrap"), os.path.join(d, "spec")],
                                     env=self.repo.env, stdin=subprocess.DEVNULL,
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                     start_new_session=True))
        late = False
        try:
            so, se = communicate(p, runs[0][0].get("timeout", 90), p.pid)
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
        if not late and p.returncode != 0:
            raise RuntimeError("fstrap: %s %s" % (p.returncode, se))
        t1 = int(time.time())
        out = []
        res = [x.split() for x in so.decode().splitlines()]
        with open(os.path.join(d, "ops"), "rb") as f:
            ops = text(f.read()).splitlines()
        for i in range(len(runs)):
            o = Outcome()
            o.argv, o.t0, o.t1, o.timeout, o.fetched = runs[i][1], t0, t1, late, None
            o.wall = time.time() - st_
            o.rc = int(res[i][0]) if not late else 124
            o.ops = [x for x in ops if x.startswith(chr(65 + i))]
            if o.rc >= 118 and o.rc <= 123 and not late:
                raise RuntimeError("fstrap child: %d" % o.rc)
            with open(os.path.join(d, "out%d" % i), "rb") as f:
                o.out = f.read()
            with open(os.path.join(d, "err%d" % i), "rb") as f:
                o.err = f.read()
            out.append(o)
        shutil.rmtree(d, ignore_errors=True)
        return out

    def do_strained(self, st):
        """A report where only part of it can be written; what it is, a run before and after says"""
        q, argv, cwd, env = self.prepare(st)
        full = run_argv(argv, cwd, env)
        n, (how, x) = len(full.out), st["room"]
        room = max(0, n + x if how == "end" else int(n * x) if how == "part" else x)
        o = self.strapped([(dict(st, tight=True), argv, cwd, env)], ["room %d %d" % (room, st["errno"])])[0]
        self.outcomes[st["id"]] = o
        if full.rc != 0 or run_argv(argv, cwd, env).out != full.out:
            return              # what it says depends on the time
        self.events.append(dict(ev="strained", id=st["id"], full=full.out.decode("latin-1"),
                                got=o.out.decode("latin-1"), free=room, rc=o.rc, said=bool(o.err),
                                crash=b"panic:" in o.err or b"goroutine " in o.err, hang=bool(o.timeout)))

    def do_overlap(self, st):
        """Several runs at once, sharing the cache"""
        runs = []
        for r in st["runs"]:
            q, argv, cwd, env = self.prepare(r)
            runs.append((r, argv, cwd, env))
        common = (["reads"] if st.get("reads", True) else []) + \
                 (["schedule " + st["schedule"]] if st.get("schedule") else [])
        outs = self.strapped(runs, [], common)
        for (r, _, _, _), o in zip(runs, outs):
            self.record(dict(r, fate=r.get("fate", "fsfail")), r["q"], o)
        self.events.append(dict(ev="cachelost"))

    def cache_files(self):
        out = []
        for dp, dn, fn in os.walk(os.path.join(self.home, "cache")):
            out += [os.path.join(dp, x) for x in fn]
        return sorted(out)

    def do_damage(self, st):
        """Damages the cache files"""
        r = random.Random(st["seed"])
        for p in self.cache_files():
            with open(p, "rb") as f:
                data = bytearray(f.read())
            n = len(data)
            how = st["how"]
            if how == "truncate":
                data = data[:int(n * st["frac"])] if "frac" in st else data[:max(0, n - st["off"])]
            elif how == "flip" and n:
                for _ in range(st.get("count", 1)):
                    i = r.randrange(n)
                    data[i] ^= 1 << r.randrange(8)
            elif how == "overwrite" and n:
                i = r.randrange(n)
                k = min(n - i, r.randrange(1, 65))
                data[i:i + k] = bytes(r.randrange(256) for _ in range(k))
            elif how == "zero" and n:
                i = r.randrange(n)
                data[i:] = bytes(n - i)
            elif how == "empty":
                data = bytearray()
            elif how == "garbage":
                data = bytearray(r.randrange(256) for _ in range(r.randrange(1, 400)))
            elif how == "append":
                data += bytes(r.randrange(256) for _ in range(r.randrange(1, 40)))
            elif how == "double":
                data = data + bytes(data)
            elif how == "inflates" and p.endswith(".gz"):
                # compressed data that still inflate, to other text
                import gzip
                try:
                    full = bytearray(gzip.decompress(bytes(data)))
                except (OSError, EOFError, ValueError, zlib.error):
                    full = bytearray()
                at = [i for i in range(len(full)) if chr(full[i]).isalnum() and full[i] < 128]
                if "texts" in st:       # only within names, so that it decodes
                    spots = []
                    for t in st["texts"]:
                        i = full.find(b(t))
                        while i >= 0 and t:
                            spots.append((i, len(b(t))))
                            i = full.find(b(t), i + 1)
                    at = [r.randrange(i, i + k) for i, k in r.sample(spots, min(len(spots), st["count"]))]
                    for i in at:
                        full[i] = r.choice([x for x in b"qjz" if x != full[i]])
                else:
                    for i in r.sample(at, min(len(at), st.get("count", 5))):
                        full[i] = r.choice(b"abcxyz0123")
                if at:
                    c = zlib.compressobj(r.choice([0, 1, 6]), zlib.DEFLATED, -15)
                    data = bytearray(bytes(data[:10]) + c.compress(bytes(full)) + c.flush() + bytes(data[-8:]))
            with open(p, "wb") as f:
                f.write(bytes(data))
            if how == "leftover" and p.endswith(".gz"):
                # an uncompressed file left behind next to it
                import gzip
                try:
                    full = gzip.decompress(bytes(data))
                except (OSError, EOFError, ValueError, zlib.error):     # not a cache file (any more)
                    full = bytes(data)
                cut = full[:int(len(full) * st["frac"])]
                with open(p[:-3], "wb") as f:
                    f.write(cut)
                if st.get("alone"):
                    os.unlink(p)
            elif how == "dir":
                os.unlink(p)
                os.mkdir(p)
            elif how == "remove":
                os.unlink(p)
        self.events.append(dict(ev="cachelost", everywhere=True))

    def do_call(self, st):
        """Free-form step implemented by the check"""
        getattr(custom, st["fn"])(self, st)


class custom:
    pass


_shim = None


def shim_dir():
    """A directory whose `git` is the recording shim"""
    global _shim
    if _shim is None:
        d = os.path.join(base.scratch(), "shim")
        os.makedirs(d, exist_ok=True)
        exe = base.native("gitshim")
        dst = os.path.join(d, "git")
        if not os.path.exists(dst):
            os.symlink(exe, dst)
        _shim = d
    return _shim


def tables(all_events):
    """Static tables for the trace: string ranks, case folding, widths, zones"""
    names, comps, chars, tz = set(), set(), set(), set()
    for e in all_events:
        if e["ev"] == "commits":
            for c in e["new"]:
                names.update((c["an"], c["ae"]))
                for o in c["ops"]:
                    for k in ("p", "q"):
                        if k in o:
                            comps.update(o[k].split("/"))
        elif e["ev"] == "substitute":
            names.update((e["c"]["an"], e["c"]["ae"]))
        elif e["ev"] == "mailmap":
            for m in e["repo"] + e["conf"]:
                names.update(m.values())
        elif e["ev"] == "run":
            tz.add(e["q"]["tz"])
    strs = names | comps | {""}
    order = sorted(strs, key=b)
    for s in names:
        chars.update(s)
    low = lambda s: "".join(c.lower() if c < "\x80" else c for c in s)
    return dict(ev="tables",
                rank={s: i for i, s in enumerate(order)},
                fold={s: low(s) for s in names | {"", "A"}},
                cw={**{c: chw(c) for c in chars if chw(c) != 1}, "\u0300": 0},
                zones={z: zones.table(z) for z in tz | {"UTC"}})
