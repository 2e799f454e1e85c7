"""Scenario families: random behaviours of the specification (repository
changes and runs) that are executed on the real git-who."""
import random, re
from . import gen, model as m
from .framework import Scn

DIFF = ("lines", "files")
MODES = ("commits", "lines", "files", "last", "first")
ZONES = ("UTC", "America/New_York", "Asia/Kathmandu", "Europe/Berlin", "Pacific/Auckland")
AUTHORSETS = (gen.PLAIN, gen.SHARED, gen.WEIRD, gen.PLAIN + gen.WEIRD, gen.SHARED + gen.PLAIN)


def modes_of(cmd):
    return ("commits", "lines", "files") if cmd == "hist" else MODES


def repo(r, n=None, join=None, s=None, **kw):
    """A scenario with a random repository; returns (Scn, RepoGen)"""
    kw.setdefault("authors", r.choice(AUTHORSETS))
    kw.setdefault("step", r.choice([(0, 3600), (0, 86400), (0, 20 * 86400), (0, 90 * 86400)]))
    g = gen.RepoGen(r, **kw)
    new = list(g.grow(n if n is not None else r.randint(3, 30)))
    if join if join is not None else r.random() < 0.7:
        new += g.join()
    s = s or Scn()
    s.step(g.event(new))
    return s, g


def head_paths(g):
    return sorted(g.trees[g.at or g.head])


def dirs_of(paths):
    out = set()
    for p in paths:
        c = p.split("/")[:-1]
        for i in range(1, len(c) + 1):
            out.add("/".join(c[:i]))
    return sorted(out)


SPECIAL = set("*?[]{}\\:!^~\t\"")


def plain(p):
    return not (set(p) & SPECIAL) and not p.startswith("-")


def rel(cwd, p):
    """p as written from cwd ("" or with trailing slash)"""
    if not cwd:
        return p
    if p.startswith(cwd):
        return p[len(cwd):] or "."
    c = cwd.rstrip("/").split("/")
    t = p.split("/")
    k = 0
    while k < len(c) and k < len(t) and c[k] == t[k]:
        k += 1
    return "/".join([".."] * (len(c) - k) + t[k:]) or "."


def rand_paths(r, g, cwd="", magic=True, odd=False):
    """Path arguments from the paths the repository ever had"""
    every = sorted({o[k] for c in g.all for o in c["ops"] for k in ("p", "q") if k in o})
    if not odd:
        every = [p for p in every if plain(p)] or ["a.txt"]
    ds = [d for d in dirs_of(every) if odd or plain(d)]
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.4 or not every:
            t = rel(cwd, r.choice(every))
        elif k < 0.65 and ds:
            t = rel(cwd, r.choice(ds)) + r.choice(["", "/"])
        elif k < 0.72:
            t = r.choice([".", "./"] + ([".."] if cwd else []))
        elif k < 0.9:
            p = r.choice([x for x in every if plain(x)] or ["a.c"])
            b = p.split("/")[-1]
            t = r.choice(["*." + b.split(".")[-1] if "." in b else "*" + b[-2:], "*" + b[1:],
                          "*" + b[:2] + "*" if len(b) > 2 else "*" + b, star(r, p), star(r, p)])
        else:
            t = r.choice(["nowhere", "src/none.c", "zzz/"])
        # a leading ./ is dropped
        if r.random() < 0.1 and not t.startswith("*") and not t.startswith("."):
            t = "./" + t
        x = magic and r.random() < 0.3
        if x:
            txt = r.choice([":!", ":^", ":(exclude)", ":!:", ":^:"]) + t
            if t[:1] in "!^:(./*-" or not (t[:1].isalnum() or ord(t[0]) > 127):
                txt = ":(exclude)" + t
        else:
            txt = t
        out.append(m.path(t, x, txt))
    return out


def star(r, p):
    """A pattern with a leading * that p matches"""
    t = p[r.randrange(len(p)):]
    for _ in range(r.choice([0, 1, 1, 2])):
        i = r.randrange(len(t))
        j = min(len(t), i + r.randint(0, 3))
        if r.random() < .25 and t[i].isalnum():
            # one of some characters
            x = r.choice("abcxz")
            t = t[:i] + r.choice(["[%s%s]" % (x, t[i]), "[%s]" % t[i], "[!%s]" % x, "[^%s%s]" % (x, t[i])]) + t[i + 1:]
            break
        t = t[:i] + r.choice(["*", "*", "?" if j == i + 1 else "*"]) + t[j:]
        if not t:
            break
    if r.random() < .3 and "[" not in t:
        t = t[:r.randint(1, len(t))] if t else t
    t = "*" + t.rstrip("/")
    return t.replace("/./", "/").replace("//", "/") if "/." not in t else "*" + p[-1:]


def cwd_of(r, g, odd=False):
    ds = [d for d in dirs_of(head_paths(g)) if odd or plain(d)]
    return r.choice(ds) + "/" if ds else ""


def patterns(r, authors, k=None):
    """--author patterns: literal pieces of `Name <email>`"""
    out = []
    for _ in range(k or r.choice([1, 1, 2])):
        n, e = r.choice([a for a in authors if a[0] and a[1]] or gen.PLAIN)
        line = "%s <%s>" % (n, e)
        y = r.random()
        i, j = sorted((r.randrange(len(line)), r.randrange(len(line))))
        p = line[i:j + 1] if y < 0.35 else n if y < 0.55 else e if y < 0.75 else \
            "^" + n if y < 0.85 else "<" + e + ">$" if y < 0.95 else line
        if "-" in line and r.random() < .5:     # not an option
            p = line[line.index("-"):][:r.randint(1, 6)].rstrip(">")
        core = p.strip("^$")
        if set(core) & set("\\.*[]^$+?(){}|\"'") or not core.strip():
            p = n if not set(n) & set("\\.*[]^$+?(){}|\"'") else e.split("@")[0]
        out.append(p)
    return out


def times(r, g):
    """An instant near commit times"""
    c = r.choice(g.all)["ct"]
    return max(1, c + r.choice([-1, 0, 0, 1, r.randint(-86400, 86400), 43200]))


def rand_query(r, g, cmd=None, mode=None, revs=0.3, filt=0.25, paths=0.0, csv=0.6, merges=0.4,
               email=0.4, tz=None, authors=None, n=True, cwd=0.0, **kw):
    cmd = cmd or r.choice(["table", "table", "tree", "hist"])
    mode = mode or r.choice(modes_of(cmd))
    if cmd == "hist" and mode not in modes_of("hist"):
        mode = "commits"
    q = m.query(cmd=cmd, mode=mode, email=r.random() < email, merges=r.random() < merges,
                csv=r.random() < csv, tz=tz or r.choice(ZONES))
    if cmd == "table" and n:
        q["n"] = r.choice([0, 0, 0, 1, 2, 3, 10, 50])
    if cmd == "tree":
        q["d"] = r.choice([0, 0, 0, 1, 2, 3])
        q["all"] = r.random() < 0.3
    if r.random() < revs:
        q["revs"] = gen.rand_revs(r, g)
    if cwd and r.random() < cwd:
        q["cwd"] = cwd_of(r, g)
    if r.random() < paths:
        q["paths"] = rand_paths(r, g, q["cwd"])
    if r.random() < filt:
        if r.random() < 0.4:
            q["since"] = times(r, g)
        if r.random() < 0.4:
            q["until"] = times(r, g)
        if r.random() < 0.4:
            q["au"] = patterns(r, g.authors)
        if r.random() < 0.3:
            q["nau"] = patterns(r, g.authors)
    q.update(kw)
    return q


def line(r, q, named=None):
    """A command line for q with shuffled flags"""
    return m.argv(q, named=r.random() < 0.7 if named is None else named, order=r,
                  style=r.randrange(3))


PARS = (1, 2, 3, 8)


def runs(s, r, g, n, pars=PARS, **kw):
    for _ in range(n):
        q = rand_query(r, g, **kw)
        s.run(q, argv=line(r, q), par=r.choice(pars))
    return s


# ---- C01 ----
def totals(r):
    s, g = repo(r, future=r.choice([0, .06]), nobody=r.choice([0, .08]), empty=r.choice([.05, .2]))
    return runs(s, r, g, 10, cmd="table", csv=0.8)


def totals_all_modes(r):
    """The same selection in every mode"""
    s, g = repo(r, future=.03, nobody=.03)
    q0 = rand_query(r, g, cmd="table", csv=1, n=False)
    for mode in MODES:
        for e in (False, True):
            q = dict(q0, mode=mode, email=e)
            s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def few_authors_many_paths(r):
    """Renames, deletions and re-creations of a few paths by few authors"""
    s, g = repo(r, n=r.randint(10, 40), authors=gen.PLAIN[:r.randint(1, 3)],
                paths=gen.PATHS[:r.randint(2, 5)], mvp=.25, delp=.2, binp=.12, chmodp=.12)
    return runs(s, r, g, 10, cmd="table", csv=0.85, revs=0.3)


def tiny(r):
    """Very short histories"""
    s, g = repo(r, n=r.randint(1, 3), authors=r.choice(AUTHORSETS), future=.1, nobody=.15, empty=.2)
    return runs(s, r, g, 8, cmd="table")


def dates(r):
    """Author dates out of order, equal, far apart, in different zones"""
    s, g = repo(r, n=r.randint(5, 25), jitter=r.choice([0, 60, 400 * 86400, 3000 * 86400]),
                tie=r.choice([.1, .6]), t0=r.choice([86400 * 30, 1000000000, 1600000000]),
                step=r.choice([(0, 5), (0, 86400), (0, 100 * 86400)]),
                tzs=("+0000", "-1130", "+1400", "+0545"))
    return runs(s, r, g, 9, cmd="table", csv=0.7)


# ---- C02 ----
def ties(r):
    """Many authors with few distinct metric values"""
    na = r.randint(2, 16)
    au = [("A%c" % (97 + i), "%c@x" % (97 + (i * 7) % na)) for i in range(na)]
    s, g = repo(r, n=r.randint(na, 3 * na), authors=au, big=2, tie=r.choice([.2, .8]), jitter=r.choice([0, 3600]),
                binp=0, mvp=0, delp=0, chmodp=0, step=r.choice([(0, 0), (0, 1), (0, 86400)]), merge=.05)
    ns = [0, 1, 2, 3, 5, 9, 10, 11, na - 1, na, na + 1]
    for _ in range(12):
        q = rand_query(r, g, cmd="table", revs=.15, filt=.1)
        q["n"] = r.choice([x for x in ns if x >= 0])
        a = line(r, q)
        s.run(q, argv=a, par=r.choice(PARS))
    return s


def many_authors(r):
    """Around and beyond the default limit of ten rows"""
    na = r.choice([9, 10, 11, 12, 25])
    au = [("Author %02d" % i, "a%d@x" % i) for i in range(na)]
    g = gen.RepoGen(r, authors=au, merge=0, binp=0)
    for i in range(na):
        g.add([g.all[-1]["id"]] if g.all else [], an=au[i][0], ae=au[i][1])
    g.linear(r.randint(0, 30))
    s = Scn().step(g.event(list(g.all)))
    for mode in MODES:
        q = rand_query(r, g, cmd="table", mode=mode, revs=0, filt=0, csv=.4, n=False)
        q["n"] = r.choice([10, 10, na, na - 1, 0, 3])
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    for x in (-1, -10):
        q = rand_query(r, g, cmd="table", revs=0, filt=0)
        q["n"] = x
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    for cmd in ("table", "tree", "hist"):
        q = rand_query(r, g, cmd=cmd, mode="lines", revs=0, filt=0)
        a = line(r, q)
        a.insert(1 if a[0] == cmd else 0, r.choice(["-f"] if cmd == "hist" else ["-f", "-m", "-c"]))
        q["sorts"] = 2
        s.run(q, argv=a, par=r.choice(PARS))
    return s


# ---- C03 ----
def merges(r):
    s, g = repo(r, n=r.randint(8, 30), merge=r.choice([.25, .4]), octopus=.4, evil=.6,
                authors=r.choice([gen.PLAIN, gen.PLAIN[:2]]), join=True)
    for _ in range(6):
        q = rand_query(r, g, revs=.3, filt=.1, paths=.15)
        for x in (False, True):
            p = dict(q, merges=x)
            s.run(p, argv=line(r, p), par=r.choice(PARS))
    return s


def only_merges(r):
    """Authors who only merge; selections consisting of merges"""
    g = gen.RepoGen(r, authors=gen.PLAIN[:2], evil=.7, merge=0)
    g.linear(2)
    base = g.head
    for _ in range(r.randint(1, 4)):
        tips = []
        for _ in range(r.choice([2, 2, 3])):
            g.add([base])
            tips.append(g.head)
        g.add(tips, an="Merger", ae="merge@x")
        base = g.head
    s = Scn().step(g.event(list(g.all)))
    mergeids = [c["id"] for c in g.all if len(c["par"]) > 1]
    for _ in range(12):
        q = rand_query(r, g, revs=0, filt=.1)
        if r.random() < .5:
            i = r.choice(mergeids)
            q["revs"] = [m.ref(i)] + [m.neg(p) for p in g.all[i - 1]["par"]]
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


# ---- C13 ----
def odd_paths(r):
    s, g = repo(r, n=r.randint(4, 20), authors=gen.WEIRD + gen.PLAIN,
                paths=r.choice([gen.ODDPATHS, gen.ODDPATHS + gen.PATHS]), mvp=.25, binp=.12, empty=.15,
                delp=.08, join=True)
    return runs(s, r, g, 10, revs=.15, filt=0, email=.6)


def hexnames(r):
    """Paths that look like commit hashes or numstat fields"""
    ps = ["a" * 40, "0" * 40, "dead/" + "f" * 40, "f" * 40 + "/x", "1\t2\tq", "-\t-\tz", "0", "12",
          "deadbeef", " lead", "trail ", "nul", "a b => c d", "{b => c}/{d => e}", "x\\ny"]
    s, g = repo(r, n=r.randint(4, 18), paths=ps, mvp=.3, empty=.2, authors=gen.PLAIN[:3])
    return runs(s, r, g, 9, revs=.1, filt=0)


def own_words(r, i):
    """Files and authors whose names mean something within git-who"""
    ws = gen.words()
    random.Random(7).shuffle(ws)
    ws = [w for w in ws[i % 10::10] if not any(x.startswith(w + "/") for x in ws[i % 10::10])]
    ps = ws + [r.choice(["d/", "x/y/"]) + w for w in r.sample(ws, len(ws) // 2)] + ["a", "d/a", "d/b"]
    au = [(w, w + "@x") for w in ws if re.fullmatch(r"[A-Za-z0-9][\w/+-]*", w)][:4] + gen.PLAIN[:2]
    s, g = repo(r, n=r.randint(12, 20), paths=ps, authors=au, empty=.2, ops=(2, 6), mvp=.1, merge=.1, join=True)
    s.step(g.event([g.add([g.head], ops=[m.w(w, 1) for w in ws if w not in g.trees[g.head] and not gen.clash(g.trees[g.head], w)])]))
    for cmd in ("tree", "tree", "table", "hist"):
        s.run(dict(rand_query(r, g, cmd=cmd, revs=0, filt=0, mode=r.choice(DIFF), cwd=0)), par=r.choice(PARS))
    return runs(s, r, g, 5, revs=.1, filt=0, cwd=.2)


def line_breaks(r):
    """File names with line breaks"""
    ps = ["\n", "\nlead", "lead", "two\nlines", "end\n", "end", "\n\n", "nl/\nx", "nl/x", "nl/sub/\n", "1\t2\tq",
          "\n1\t2\tq", "cr\r", "cr\r\n", "\r", "dir\n/f", "\ndir/f", "dir/f"]
    s, g = repo(r, n=r.randint(4, 18), paths=r.sample(ps, r.randint(4, len(ps))), mvp=.3, empty=.1, authors=gen.PLAIN[:3])
    for _ in range(8):
        q = rand_query(r, g, cmd=r.choice(["table", "table", "hist"]), revs=.1, filt=0, cwd=0)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def huge_names(r):
    """Names and emails of tens of thousands of characters"""
    k = r.choice([65535, 65536, 70000, 150000])
    au = [("n" * k, "long@x"), ("Short", "e" * k), ("Short", "s@x"), ("n" * (k - 1), "long@x")]
    s, g = repo(r, n=r.randint(3, 7), authors=au, merge=0)
    for p in PARS:
        q = rand_query(r, g, cmd="table", csv=1, revs=0, filt=0, paths=0, cwd=0)
        s.run(q, argv=line(r, q), par=p)
    return s


def self_hash(r):
    """Files named after the hashes of the repository's own commits"""
    s, g = repo(r, n=r.randint(2, 6), authors=gen.PLAIN, paths=gen.PATHS)
    s.add("hashfiles", id0=g.next, parent=g.head, count=r.randint(1, 3), rename=r.random() < .6,
          an="Hasher", ae="hash@x", at=g.t + 100)
    for _ in range(6):
        q = rand_query(r, g, cmd=r.choice(["table", "table", "hist"]), revs=0, filt=0)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def giant_commits(r):
    """Hundreds of files in one commit, directory renames, long paths"""
    g = gen.RepoGen(r, authors=gen.PLAIN, paths=gen.PATHS, merge=.05)
    k = r.choice([60, 130, 260])
    deep = "/".join(["d" * r.choice([1, 20, 100])] * r.choice([1, 5, 9]))
    g.add([], ops=[m.w("%s/f%03d" % (deep if i % 2 else "flat", i), i % 17 + 8) for i in range(k)])
    ops = []
    for i in range(0, k, 2):
        ops.append(m.move("flat/f%03d" % i, "moved{x => y}/to/f%03d" % i) if i % 4 else
                   m.move("flat/f%03d" % i, "flat2/f%03d" % i, 1, 0))
    g.add([g.head], ops=ops)
    g.add([g.head], ops=[m.binary("bin%d" % i) for i in range(20)])
    g.add([g.head], ops=[])
    g.linear(4)
    s = Scn().step(g.event(list(g.all)))
    return runs(s, r, g, 5, revs=.1, filt=0, pars=(1, 8))


# git settings that only affect presentation
GITCFG = [("log.showSignature", "true"), ("color.ui", "always"), ("log.decorate", "full"),
          ("core.quotePath", "false"), ("core.quotePath", "true"), ("diff.noprefix", "true"),
          ("log.date", "iso"), ("format.pretty", "fuller"), ("log.abbrevCommit", "true"),
          ("core.abbrev", "4"), ("core.abbrev", "40"), ("diff.mnemonicPrefix", "true"),
          ("log.showRoot", "false"), ("diff.relative", "true"), ("i18n.logOutputEncoding", "ISO-8859-1"),
          ("core.pager", "cat"), ("pager.log", "true"), ("color.diff", "always"), ("diff.stat", "x"),
          ("diff.statGraphWidth", "5"), ("diff.context", "0"), ("diff.wordRegex", "."),
          ("notes.displayRef", "*"), ("log.excludeDecoration", "*"), ("diff.dirstat", "files"),
          ("log.graphColors", "red"), ("diff.colorMoved", "zebra"), ("log.initialDecorationSet", "all"),
          ("column.ui", "always"), ("diff.interHunkContext", "3"), ("diff.orderFile", "/dev/null"),
          ("core.commentChar", ";"), ("status.relativePaths", "false"), ("log.mailmap", "false"),
          ("log.mailmap", "true"), ("pretty.fuller", "format:%h"), ("log.follow", "true")]
# not: diff.renames, diff.algorithm, diff.ignoreSubmodules, diff.renameLimit,
# log.diffMerges - these change what a diff says


def links(r):
    """Symbolic links and submodules among the files, each becoming the other"""
    s, g = repo(r, n=r.randint(5, 25), authors=r.choice(AUTHORSETS), paths=gen.PATHS[:r.randint(3, 11)] + ["sub", "lib/dep"],
                linkp=r.choice([.1, .3]), subp=r.choice([0, .1, .3]), mvp=.05, binp=.05, merge=.1)
    return runs(s, r, g, 10, revs=.15, filt=.15, cwd=.3)


def in_turn(r, i, k, most):
    """Every setting after k scenarios, and some others"""
    n = len(GITCFG)
    cfg = GITCFG[i % k * n // k:(i % k + 1) * n // k] + r.sample(GITCFG, r.randint(0, most))
    return [x for j, x in enumerate(cfg) if x[0] not in [y[0] for y in cfg[:j]]]


def settings(r, i=0):
    cfg = in_turn(r, i, 14, 3)
    s, g = repo(r, s=Scn(config=cfg), n=r.randint(4, 18), authors=gen.WEIRD + gen.PLAIN,
                paths=gen.PATHS + gen.ODDPATHS[:8], empty=.1, merge=.2)
    if r.random() < .4 or any(k == "log.mailmap" for k, _ in cfg):
        s.add("mailmap", repo=rand_mailmap(r, gen.PLAIN, 6), conf=None)
    s, odd = runs(s, r, g, 7, revs=.2, filt=.25, cwd=.4), r.random() < .5
    for k in range(5):
        # changes below the current directory; the first commits
        q = rand_query(r, g, cmd=r.choice(["tree", "table", "hist"]), mode=r.choice(DIFF), revs=0, filt=0,
                       cwd=[0, 1][(k + odd) % 2], n=False)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def settings_paths(r, i=0):
    """The same with path arguments and renames"""
    cfg = in_turn(r, i, 16, 2)
    if r.random() < .6 and ("log.follow", "true") not in cfg:
        cfg.append(("log.follow", "true"))
    s, g = repo(r, s=Scn(config=cfg), n=r.randint(4, 18), authors=gen.PLAIN, mvp=.25, merge=.1)
    for _ in range(10):
        q = rand_query(r, g, paths=1.0, revs=.2, filt=.1, cwd=.2)
        q["paths"] = [p for p in q["paths"] if not p["x"]][:1] or q["paths"]
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def encodings(r):
    """Commits that record another encoding for their author"""
    g = gen.RepoGen(r, authors=[("Ål Ñandú", "al@x"), ("Bob", "bob@x"), ("Éve", "eve@x")],
                    paths=gen.PATHS, merge=.1)
    new = list(g.grow(r.randint(3, 12)))
    for c in new:
        if r.random() < .5:
            c["enc"] = "ISO-8859-1"
            c["rawan"] = c["an"].encode("latin-1").decode("utf-8", "surrogateescape")
    s = Scn(config=r.choice([(), (("i18n.logOutputEncoding", "ISO-8859-1"),),
                             (("i18n.commitEncoding", "ISO-8859-1"),)])).step(g.event(new))
    runs(s, r, g, 5, revs=0, filt=0)
    for _ in range(4):
        q = rand_query(r, g, revs=0, filt=0)
        q["au"] = [r.choice(["Ål", "Éve", "Ñandú <al", "ú", "Bob"]) for _ in range(r.choice([0, 1, 1, 2]))]
        q["nau"] = [r.choice(["Ål", "Éve <", "ú"])] if r.random() < .4 else []
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


# ---- C14 ----
def path_args(r):
    s, g = repo(r, n=r.randint(6, 30), merge=r.choice([.05, .25]), mvp=.08, authors=gen.PLAIN,
                tie=r.choice([.1, .5]))
    return runs(s, r, g, 12, paths=1.0, cwd=.35, revs=.25, filt=.15)


def path_args_everywhere(r):
    """One set of path arguments in every subcommand and mode"""
    s, g = repo(r, n=r.randint(6, 25), merge=.1, authors=gen.PLAIN)
    cwd = cwd_of(r, g) if r.random() < .4 else ""
    ps = rand_paths(r, g, cwd)
    for cmd in ("table", "tree", "hist"):
        for mode in modes_of(cmd):
            q = rand_query(r, g, cmd=cmd, mode=mode, revs=0, filt=0, n=False, cwd=0)
            q.update(cwd=cwd, paths=ps)
            s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def excluded_below(r):
    """Paths in one directory with something below it excluded"""
    s, g = repo(r, n=r.randint(8, 30), merge=.1, authors=gen.PLAIN, paths=r.choice([gen.PATHS, TREEPATHS]),
                width=1, delp=.02)
    every = sorted({o[k] for c in g.all for o in c["ops"] for k in ("p", "q") if k in o})
    ds = dirs_of(every)
    for _ in range(10):
        if not ds:
            break
        d = r.choice(ds)
        under = [p for p in every if p.startswith(d + "/")]
        below = sorted({x for x in dirs_of(every) if x.startswith(d + "/")} | set(under))
        cwd = r.choice(["", "", d + "/", r.choice(ds) + "/"])
        if cwd and not any(p.startswith(cwd) for p in head_paths(g)):
            cwd = ""
        inc = r.choice([[d], [d + "/"], [d + "/"], [d + "/"], r.sample(under, min(2, len(under))), r.sample(below, min(2, len(below)))])
        exc = [r.choice(below if r.random() < .6 else every + ds) for _ in range(r.choice([1, 1, 2]))]
        ps = [(rel(cwd, x) or ".", False) for x in inc] + [(rel(cwd, x) or ".", True) for x in exc]
        if r.random() < .3:
            ps[len(ps) - r.randint(0, 1):] = [("*" + r.choice(under)[-3:], True)]
        ps = [m.path(t, x, t if not x else ":(exclude)" + t) for t, x in ps]
        r.shuffle(ps)
        q = rand_query(r, g, cmd=r.choice(["tree", "tree", "tree", "table", "hist"]), revs=.1, filt=0)
        q.update(cwd=cwd, paths=ps)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def path_args_odd(r):
    """Path arguments with special characters, all literal"""
    s, g = repo(r, n=r.randint(6, 20), authors=gen.PLAIN, paths=gen.ODDPATHS, merge=.05, mvp=0)
    every = sorted({o["p"] for c in g.all for o in c["ops"]})
    for _ in range(10):
        q = rand_query(r, g, revs=0, filt=0)
        # * and ? and [ are patterns to git; backslash escapes
        c = [p for p in every if not set(p) & set("*?[\\") and not p.startswith(":")]
        q["paths"] = [m.path(p, False, p) for p in r.sample(c, min(len(c), r.randint(1, 2)))]
        if r.random() < .3:
            # braces are no alternatives, an unclosed bracket matches nothing
            t = r.choice(["*{a,c}e", "*{a,b}*", "*}*e", "br{a,b}e", "{a,b}", "*{", "[b", "br[", "*[b", "no/[x", "*[!", "*[",
                          "*x {=> y}", "*{*"])
            x = r.random() < .2
            q["paths"].append(m.path(t, x, (":(exclude)" if x else "") + t))
        if q["paths"]:
            s.run(q, argv=m.argv(q, sep=True, order=r), par=r.choice(PARS))
    return s


def absolute(r):
    """Absolute path arguments, also through symbolic links"""
    name = r.choice(["repo", "repo", "my repo", "a/b"])
    s, g = repo(r, s=Scn(repo=name), n=r.randint(4, 16), merge=.1, authors=gen.PLAIN)
    tops = ["{T}", "{T}"]
    for k in range(r.randint(0, 2)):
        s.add("symlink", name="way%d" % k, to="")
        tops.append("{D}/way%d" % k)
    if "{D}/way0" in tops:
        tops += ["{D}/./way0", "{D}/home/../way0", "{D}//way0"]
    for _ in range(10):
        q = rand_query(r, g, revs=.15, filt=.1, cwd=.4)
        ps = []
        for a in rand_paths(r, g, "" if r.random() < .8 else q["cwd"]):
            t = a["t"] if not a["x"] else a["s"]
            if a["s"].startswith("..") or r.random() < .25 and not a["x"]:
                continue
            top = r.choice(tops)
            t = t[2:] if t.startswith("./") else t
            if t in (".", ""):
                t = top + r.choice(["", "/", "/."])
                a = m.path("/", a["x"], (":(exclude)" if a["x"] else "") + t)
            else:
                how = r.choice(["/", "/", "/", "//", "/./", "/zz/../"])
                a = m.path("/" + a["s"], a["x"], (":(exclude)" if a["x"] else "") + top + how + t)
            ps.append(a)
        if r.random() < .3:
            ps += rand_paths(r, g, q["cwd"])[:1]
        elif r.random() < .12:
            t = r.choice(["{D}", "{D}/home", "/", "/nowhere/x", "{T}x/a.txt", "{T}/../x", "{D}/no/way"])
            ps.append(m.path("x", False, t, m="outside"))
        elif r.random() < .1:
            ps.append(m.path("x", False, "../" * (q["cwd"].count("/") + 1) + r.choice(["", "x", "repo"]), m="outside"))
        r.shuffle(ps)
        q["paths"] = ps
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def path_boundary_renames(r):
    """Renames into and out of the selected paths"""
    s, g = repo(r, n=r.randint(8, 25), authors=gen.PLAIN, mvp=.4, big=12, merge=.05)
    return runs(s, r, g, 10, paths=1.0, revs=.1, filt=0, cwd=.2)


def path_magic(r):
    s, g = repo(r, n=6, authors=gen.PLAIN)
    for t in r.sample([":(top)src", ":(icase)SRC", ":(glob)**/*.c", ":(attr:x)src", ":/", ":/src",
                       ":(literal)src", ":(exclude,icase)src", ":(top,exclude)src"], 5):
        q = rand_query(r, g, revs=0, filt=0)
        q["paths"] = [m.path(t, False, t, m="magic")]
        s.run(q, argv=m.argv(q, sep=True), par=r.choice(PARS))
    q = rand_query(r, g, revs=0, filt=0)
    q["paths"] = [m.path("missing/file.c", False, "missing/file.c", m="missing")]
    s.run(q, argv=m.argv(q, sep=False), par=2)
    return s


# ---- C15 ----
def filters(r):
    s, g = repo(r, n=r.randint(6, 30), authors=r.choice([gen.PLAIN, gen.SHARED, gen.PLAIN + gen.SHARED]),
                jitter=r.choice([0, 86400]), step=r.choice([(0, 3), (0, 86400), (0, 30 * 86400)]))
    return runs(s, r, g, 12, filt=1.0, revs=.25, paths=.2)


def author_combinations(r):
    s, g = repo(r, n=r.randint(8, 25), authors=gen.PLAIN + gen.SHARED, merge=.1)
    for _ in range(12):
        q = rand_query(r, g, revs=.1, filt=0)
        q["au"] = patterns(r, g.authors, r.choice([0, 1, 2, 3])) if r.random() < .6 else []
        q["nau"] = patterns(r, g.authors, r.choice([1, 2, 3])) if r.random() < .7 else []
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def date_edges(r):
    """--since/--until exactly at, just before and just after commit dates"""
    s, g = repo(r, n=r.randint(4, 15), authors=gen.PLAIN, jitter=10 * 86400, step=(1, 3), merge=.1)
    for _ in range(12):
        q = rand_query(r, g, revs=.1, filt=0)
        c = r.choice(g.all)["ct"]
        k = r.random()
        if k < .7:
            q["since"] = c + r.choice([-1, 0, 1])
        if k > .4:
            q["until"] = r.choice(g.all)["ct"] + r.choice([-1, 0, 1])
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


# ---- C16 ----
def revisions(r):
    g = gen.RepoGen(r, authors=gen.PLAIN, merge=.2, paths=gen.PATHS)
    new = list(g.grow(r.randint(6, 25)))
    refs, names = {}, {}
    tips = list(g.tips)
    cross = None
    if r.random() < .5:
        new += g.join()
    if r.random() < .4:
        # two merges of the same commits: two or more merge bases
        base = g.head
        arms = [g.add([base]) for _ in range(r.choice([2, 2, 3]))]
        new += arms
        arms = [c["id"] for c in arms]
        x, y = (g.add(arms), g.add(arms[::-1] if r.random() < .5 else arms))
        new += [x, y]
        cross = [x["id"], y["id"]]
        if r.random() < .5:
            new.append(g.add([cross[0]]))
        if r.random() < .5:
            new.append(g.add([cross[1]]))
    for k, i in enumerate(r.sample([c["id"] for c in g.all], min(5, len(g.all)))):
        short = ["v1.0", "topic", "release/2", "src", "origin/dev"][k]
        full = ["refs/tags/v1.0", "refs/heads/topic", "refs/heads/release/2", "refs/tags/other",
                "refs/remotes/origin/dev"][k]
        refs[full] = i
        nm = {"src": "other"}.get(short, short)
        names.setdefault(i, []).extend([nm, full])
    names.setdefault(g.head, []).append("HEAD")
    first = g.all[g.head - 1]["par"]
    if first:
        names.setdefault(first[0], []).append("HEAD^")
        names[first[0]].append("HEAD~1")
        names[first[0]].append("main~")
    s = Scn().step(g.event(new, refs=refs))
    for _ in range(13):
        q = rand_query(r, g, revs=0, filt=.1, paths=.2)
        q["revs"] = gen.rand_revs(r, g, names)
        if cross and r.random() < .4:
            a, b = r.sample([cross[0], cross[1], g.all[-1]["id"], g.all[-2]["id"]], 2)
            t = lambda i: r.choice(["{h:%d}" % i, "{s:%d}" % i] + names.get(i, []))
            q["revs"] = [m.sym(a, b, t(a), t(b))]
            if r.random() < .4:
                k = r.choice(g.all)["id"]
                q["revs"].insert(r.randint(0, 1), r.choice([m.neg(k, t(k)), m.ref(k, t(k))]))
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def arguments(r):
    """How arguments are read: --, default subcommand, paths and revisions, nonsense"""
    s, g = repo(r, n=r.randint(5, 15), authors=gen.PLAIN, join=True, merge=.1)
    hp = [p for p in head_paths(g) if plain(p)]
    for _ in range(3):
        q = rand_query(r, g, revs=.5, filt=0)
        a = line(r, q, named=q["cmd"] != "table" or r.random() < .3)
        if r.random() < .5:
            a = a + ["--"]
        s.run(q, argv=a, par=r.choice(PARS))
    if hp:
        for _ in range(3):    # a path without --
            q = rand_query(r, g, revs=.4, filt=0)
            p = r.choice(hp)
            q["paths"] = [m.path(p)]
            s.run(q, argv=m.argv(q, sep=r.random() < .5, order=r), par=r.choice(PARS))
    bad = [(["no-such-rev"], dict(revs=[dict(k="unknown", a=0, b=0, t="no-such-rev")])),
           (["{h:1}..nope"], dict(revs=[dict(k="unknown", a=0, b=0, t="{h:1}..nope")])),
           (["--no-such-flag"], dict(badflag=True)), (["-n", "many"], dict(badflag=True)),
           (["0000000000000000000000000000000000000001"],
            dict(revs=[dict(k="unknown", a=0, b=0, t="0" * 39 + "1")])),
           (["HEAD", "no/such/path"], dict(revs=[m.ref(g.head)],
                                           paths=[m.path("no/such/path", m="missing")])),
           (["nope", "--"], dict(revs=[dict(k="unknown", a=0, b=0, t="nope")]))]
    for extra, kw in r.sample(bad, 5):
        cmd = r.choice(["table", "tree", "hist"]) if extra[0] != "-n" else "table"
        q = m.query(cmd=cmd, mode=r.choice(modes_of(cmd)), **kw)
        flags = [] if q["mode"] == "commits" else m.MODE_FLAG[q["mode"]]
        a = ([cmd] if cmd != "table" or r.random() < .5 else []) + list(flags) + extra
        s.run(q, argv=a, par=r.choice(PARS))
    q = m.query(cmd=r.choice(["table", "tree", "hist"]), norepo=True)
    s.add("file", path="outside", **{"in": "home"})
    s.run(q, argv=m.argv(q), at="home/outside", par=8)
    return s


SORTS = {"table": "lfmc", "tree": "lfmc", "hist": "lf"}
LETTER = {"l": "lines", "f": "files", "m": "last", "c": "first"}


def flag_forms(r, i):
    """Every pair of sort flags (and more of them), and every way to write a flag"""
    s, g = repo(r, n=r.randint(3, 10), authors=gen.PLAIN, merge=.1)
    pairs = [(cmd, a, b) for cmd in SORTS for a in SORTS[cmd] for b in SORTS[cmd] if a < b]

    def form(c, on=True):
        if not on:
            return r.choice(["-%s=false", "--%s=false", "-%s=0", "--%s=F"]) % c
        return r.choice(["-%s", "-%s", "--%s", "-%s=true", "--%s=1"]) % c

    for k in range(5):
        cmd, a, b = pairs[(i * 5 + k) % len(pairs)]
        on = {a, b}
        if cmd != "hist" and r.random() < .25:
            on.add(r.choice(SORTS[cmd]))
        q = rand_query(r, g, cmd=cmd, mode="commits", revs=.2, filt=.1)
        q["sorts"] = len(on)
        fl = [form(c) for c in on]
        r.shuffle(fl)
        s.run(q, argv=place(r, q, fl), par=r.choice(PARS))
    for _ in range(5):
        cmd = r.choice(["table", "tree", "hist"])
        on = r.choice(["", *SORTS[cmd]])
        q = rand_query(r, g, cmd=cmd, mode=LETTER.get(on, "commits"), revs=.2, filt=.1)
        short = dict(q, mode="commits")
        fl = [form(on)] * r.choice([1, 1, 2]) if on else []
        off = r.choice(SORTS[cmd])
        if off != on and r.random() < .6:
            fl.insert(r.randint(0, len(fl)), form(off, False))
        if on and r.random() < .3:      # the last one wins
            fl.insert(0, form(on, False))
        a = place(r, short, fl)
        a = [x for k, x in enumerate(a)]
        if r.random() < .4:
            a = glue(a)
        if r.random() < .3:
            a = [r.choice(["-v", "--v"])] + a
        s.run(q, argv=a, par=r.choice(PARS))
    return s


def place(r, q, fl):
    """The command line of q with more flags"""
    a = line(r, q)
    k = 1 if a and a[0] == q["cmd"] else 0
    return a[:k] + fl + a[k:]


def glue(a):
    """-n 5 as -n=5, --since X as --since=X, --csv as -csv"""
    out, k = [], 0
    while k < len(a):
        if a[k] == "--":
            return out + a[k:]
        if a[k] in ("-n", "-d", "--since", "--until", "--author", "--nauthor"):
            out.append(a[k] + "=" + a[k + 1])
            k += 2
            continue
        out.append({"--csv": "-csv", "--merges": "-merges", "-e": "--e", "-a": "--a"}.get(a[k], a[k]))
        k += 1
    return out


def ambiguous(r):
    """Names that are both or neither"""
    g = gen.RepoGen(r, authors=gen.PLAIN, merge=0, paths=["topic", "main", "HEAD", "v1", "src/a.c"])
    hexes = ["a" * 41, "b" * 39, "c" * 42, "d" * 41 + "/x", "0" * 41, "e" * 64, "f" * 64 + "/x", "0" * 65]
    full = ["a" * 40, "0123456789abcdef0123456789abcdef01234567", "^" + "b" * 40, "0" * 40]
    g.add([], ops=[m.w("topic", 2), m.w("src/a.c", 3)] + [m.w(h, 1 + k) for k, h in enumerate(hexes + full)])
    g.linear(r.randint(2, 8))
    k = r.choice([c["id"] for c in g.all])
    g.add([g.head], ops=[m.w("v1", 1), m.w("topic", 1), m.w("main", 2)] + [m.w(h, 1) for h in hexes + full])
    s = Scn().step(g.event(list(g.all), refs={"refs/tags/v1": k}))
    for cmd in ("table", "hist", "tree"):
        q = m.query(cmd=cmd, revs=[m.ref(k, "v1")], csv=True, mode=r.choice(modes_of(cmd)))
        s.run(q, argv=m.argv(q, sep=True), par=r.choice(PARS))
        q = m.query(cmd=cmd, paths=[m.path("v1")], csv=True, mode=r.choice(modes_of(cmd)))
        s.run(q, argv=m.argv(q, sep=True), par=r.choice(PARS))
        q = m.query(cmd=cmd, paths=[m.path("topic")], csv=True, mode=r.choice(modes_of(cmd)))
        s.run(q, argv=m.argv(q, sep=False), par=r.choice(PARS))
        q = m.query(cmd=cmd, paths=[m.path(h.split("/")[0]) for h in r.sample(hexes, r.randint(1, 2))], csv=True,
                    revs=r.choice([[], [m.ref(k, "v1^0")]]), mode=r.choice(modes_of(cmd)))
        s.run(q, argv=m.argv(q, sep=False), par=r.choice(PARS))
        q = m.query(cmd=cmd, revs=[m.ref(k, "v1")], paths=[m.path("main")], csv=True,
                    mode=r.choice(modes_of(cmd)))
        s.run(q, argv=m.argv(q, sep=True), par=r.choice(PARS))
        # hashes where only paths can be
        hs = [m.path(h) for h in r.sample(full, r.randint(1, 3))]
        q = m.query(cmd=cmd, paths=hs + r.choice([[], [m.path("topic")]]), csv=True,
                    revs=r.choice([[], [m.ref(k, "v1^0")]]), mode=r.choice(modes_of(cmd)))
        s.run(q, argv=m.argv(q, sep=True), par=r.choice(PARS))
        q = m.query(cmd=cmd, paths=[m.path("topic")] + hs, csv=True, mode=r.choice(modes_of(cmd)))
        s.run(q, argv=m.argv(q, sep=r.random() < .5), par=r.choice(PARS))
    return s


def sha256(r):
    """A repository that uses SHA-256 hashes"""
    kind = r.choice(["plain", "ignore", "ignore", "names", "names", "self", "deep"])
    odd = ["a" * 40, "0" * 40, "b" * 63, "c" * 65, "d" * 40 + "/x"]
    s, g = repo(r, s=Scn(format="sha256"), n=r.randint(4, 16), authors=gen.PLAIN, merge=.2, empty=.1, mvp=.1, join=True,
                **(dict(paths=gen.PATHS + odd) if kind == "names" else {}))
    if kind == "ignore":
        ids = [c["id"] for c in g.all]
        some = r.sample(ids, r.randint(1, min(4, len(ids))))
        s.add("ignore", ids=some, text=ignore_text(r, some, ids))
    if kind == "self":
        s.add("hashfiles", id0=g.next, parent=g.head, count=r.randint(1, 3), rename=r.random() < .6,
              an="Hasher", ae="hash@x", at=g.t + 100)
        return runs(s, r, g, 6, revs=0, filt=0)
    if kind == "names":
        tops = {o.split("/")[0] for o in odd}
        for p in sorted({p.split("/")[0] for p in head_paths(g)} & tops):
            for cmd in ("table", "hist", "tree"):
                q = m.query(cmd=cmd, paths=[m.path(p)], csv=True, mode=r.choice(modes_of(cmd)))
                s.run(q, argv=m.argv(q, sep=False), par=r.choice(PARS))
    if kind == "deep":
        for _ in range(3):
            runs(s, r, g, 3, revs=.3, mode=r.choice(DIFF), paths=.3)
            s.step(g.event(list(g.grow(r.randint(1, 4)))))
    return runs(s, r, g, 8, revs=.8, filt=.1, paths=.2)


# ---- C17, C18 ----
def trees(r):
    s, g = repo(r, n=r.randint(4, 30), authors=r.choice([gen.PLAIN, gen.PLAIN[:2], gen.SHARED]),
                paths=r.choice([gen.PATHS, TREEPATHS, gen.ODDPATHS]), big=r.choice([2, 30]),
                delp=r.choice([.05, .2]), mvp=.1, tie=r.choice([.1, .5]), future=r.choice([0, .03]))
    if r.random() < .3:
        hp = head_paths(g)
        s.add("index", add=["added/new.txt"] if r.random() < .5 else [],
              **{"del": r.sample(hp, min(len(hp), r.randint(1, 2)))})
    return runs(s, r, g, 10, cmd="tree", revs=.25, filt=.15, paths=.15, cwd=.3)


TREEPATHS = ["a", "b/c", "b/d/e", "b/d/f", "b/d/g/h", "chain/x/y/z.c", "chain2/p/q", "b.d/e", "b-d/e",
             "B/c", "b/C", "z/1", "z/2", "z/3/only", "mid/one/two/three/four", "mid/one/two/other",
             "zz", "Z"]


def tree_shapes(r):
    """Chains, depth limits, many levels; few authors so that lines repeat"""
    s, g = repo(r, n=r.randint(6, 40), authors=gen.PLAIN[:r.choice([1, 2, 2, 3])], paths=TREEPATHS,
                delp=r.choice([.05, .25]), big=3, mvp=.12, ops=(1, 5))
    for _ in range(10):
        q = rand_query(r, g, cmd="tree", revs=.2, filt=.1, paths=.1, cwd=.3)
        q["d"] = r.choice([0, 0, 1, 2, 3, 4, 7])
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


FDPATHS = ["lib", "lib/a", "lib/b", "lib/b/c", "lib/b/d", "docs", "docs/x", "docs/y", "src/m.c", "src", "a.txt",
           "a.txt/b", "top/sub", "top/sub/one", "top/sub/two", "top/z"]


def tree_replaced(r):
    """Files that become directories and directories that become files"""
    s, g = repo(r, n=r.randint(5, 24), authors=gen.PLAIN[:r.choice([1, 2, 3])], paths=FDPATHS,
                delp=.08, mvp=.12, big=r.choice([3, 20]), ops=(1, 4), merge=.1, join=True, linkp=r.choice([0, .05]))
    for _ in range(9):
        q = rand_query(r, g, cmd=r.choice(["tree", "tree", "tree", "table", "hist"]), revs=.15, filt=.1, paths=.2, cwd=.2)
        if q["cmd"] == "tree":
            q["d"] = r.choice([0, 0, 0, 1, 2, 3])
        if q["cmd"] == "tree" or q["mode"] in ("lines", "files"):
            no_slash(q, FDPATHS)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def no_slash(q, files):
    """A directory asked for with a slash might have been a file (see dir_slash)"""
    for p in q["paths"]:
        if p["s"].endswith("/") and p["s"].strip("./"):
            p["s"], p["t"] = p["s"].rstrip("/"), p["t"].rstrip("/")


def dir_slash(r):
    """`dir/` where a commit removed a file of that name (known finding)"""
    an = ("Ann", "ann@x")
    t = 1600000000
    s = Scn().step(dict(ev="commits", head=3, refs={}, new=[
        m.commit(1, [], *an, t, ops=[m.w("docs", 3), m.w("a.txt", 1)]),
        m.commit(2, [1], "Bob", "bob@x", t + 5000, ops=[m.delete("docs"), m.w("docs/x", 2)]),
        m.commit(3, [2], *an, t + 9000, ops=[m.w("docs/y", 1)])]))
    for mode in ("commits", "lines", "files"):
        q = m.query(mode=mode, csv=True, n=0, paths=[m.path("docs/")])
        s.run(q, argv=m.argv(q), par=r.choice(PARS),
              finding=dict(key="dir-slash-file", bad=["col-files", "col-lines removed"] + (["order"] if mode == "files" else []))
              if mode != "commits" else None)
    for mode in ("lines", "files", "last"):
        q = m.query(mode=mode, csv=True, n=0, paths=[m.path("docs")])
        s.run(q, argv=m.argv(q), par=r.choice(PARS))
    return s


def tree_gone(r):
    """Whole directories and last entries deleted, by a commit or in the index"""
    paths = TREEPATHS + ["gone/a/b", "gone/c", "zzz/last/one", "zzz/last/two", "b/zz/last", "z/3/only2"]
    s, g = repo(r, n=r.randint(6, 24), authors=gen.PLAIN[:r.choice([1, 2, 3])], paths=paths,
                delp=.02, mvp=.05, big=3, ops=(2, 6), join=True)
    lost = set()
    for _ in range(4):
        have = [p for p in head_paths(g) if p not in lost]
        ds = dirs_of(have)
        if ds and r.random() < .8:
            # preferably what sorts last, where a listing ends
            d = ds[-1] if r.random() < .4 else r.choice(ds)
            out = [p for p in have if p.startswith(d + "/")]
        else:
            d, out = "", have[-r.randint(1, 3):]
        if r.random() < .6 and len(out) < len(have):
            s.step(g.event([g.add([g.head], ops=[m.delete(p) for p in out])]))
            lost = set()
        elif out:
            s.add("index", add=[], **{"del": out})
            lost |= set(out)
        for _ in range(4):
            q = rand_query(r, g, cmd="tree", revs=.1, filt=.1, paths=.1, cwd=.2)
            q["d"] = r.choice([0, 0, 0, 1, 2, 3])
            q["all"] = r.random() < .25
            s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def tree_empty(r):
    """Selections that touch nothing here"""
    s, g = repo(r, n=r.randint(2, 10), authors=gen.PLAIN, empty=.3)
    for _ in range(4):
        q = rand_query(r, g, cmd="tree", revs=0, filt=0, cwd=.3)
        k = r.random()
        if k < .3:
            q["since"] = 2000000000
        elif k < .6:
            q["au"] = ["nobody-at-all"]
        elif k < .8:
            q["revs"] = [m.rng(g.head, g.head)]
        else:
            q["paths"] = [m.path("nothing-here")]
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    # a repository whose selected commits change no file
    g2 = g
    c = g2.add([g2.head], ops=[])
    s.step(g2.event([c]))
    q = m.query(cmd="tree", revs=[m.rng(c["id"] - 1, c["id"])], mode=r.choice(MODES))
    s.run(q, argv=m.argv(q), par=r.choice(PARS))
    return s


# ---- C19, C20 ----
def hists(r):
    s, g = repo(r, n=r.randint(2, 30), authors=r.choice(AUTHORSETS),
                t0=r.choice([1500000000, 1750000000, 1780000000, 86400 * 200]),
                step=r.choice([(0, 3600), (0, 86400), (0, 5 * 86400), (0, 40 * 86400)]),
                jitter=r.choice([0, 86400, 30 * 86400]), big=r.choice([3, 60]),
                future=r.choice([0, .05]))
    for _ in range(9):
        q = rand_query(r, g, cmd="hist", revs=.5, filt=.3, paths=.1)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


SHIFTY = ("America/Sao_Paulo", "Asia/Beirut", "America/Havana", "Asia/Tehran", "Pacific/Apia",
          "Pacific/Kwajalein", "America/Santiago", "Asia/Damascus", "Africa/Cairo", "Atlantic/Azores",
          "Australia/Lord_Howe", "America/Asuncion", "Asia/Amman", "Antarctica/Casey", "America/Nuuk",
          "Pacific/Fakaofo", "Europe/Dublin", "Asia/Gaza")


def shifty_zones(r):
    """Days that start late, are skipped or repeated"""
    from . import zones
    tz = r.choice(SHIFTY)
    tr = [x["at"] for x in zones.table(tz)[1:] if x["at"] > 86400 * 800]
    at = r.choice(tr)
    g = gen.RepoGen(r, authors=gen.PLAIN, merge=.05, t0=max(86400, at - r.randint(0, 4 * 86400)),
                    step=r.choice([(0, 7200), (0, 43200), (0, 3 * 86400)]), jitter=0)
    g.grow(r.randint(2, 14))
    # exactly around the change
    for d in r.sample([-86400, -3601, -3600, -1, 0, 1, 3599, 3600, 86399, 86400], 3):
        g.add([g.head], at=max(1, at + d))
    s = Scn().step(g.event(list(g.all)))
    for _ in range(6):
        q = rand_query(r, g, cmd="hist", revs=0, filt=0, tz=tz)
        a = g.all[0]["id"]
        q["revs"] = [m.ref(g.head)] if r.random() < .85 else []
        if r.random() < .3:
            q["until"] = times(r, g)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def spans(r):
    """Spans at the limits of the row sizes"""
    d = 86400
    base = r.choice([1400000000, 1583020800, 951782400, 1600000000]) // d * d
    span = r.choice([0, 1, 59, 60, 61, 364, 365, 366, 1824, 1825, 1826, 1827]) * d
    t1 = base + r.choice([0, 1, 43200, 86399])
    t2 = base + span + r.choice([0, 1, 43200, 86399])
    g = gen.RepoGen(r, authors=gen.PLAIN[:3], merge=0, jitter=0, t0=t1, step=(0, max(1, span // 6)))
    g.add([], at=t1)
    for _ in range(r.randint(0, 6)):
        g.add([g.head], at=r.randint(t1, max(t1, t2)))
    g.add([g.head], at=max(t1, t2))
    s = Scn().step(g.event(list(g.all)))
    for _ in range(5):
        q = rand_query(r, g, cmd="hist", revs=0, filt=0, tz=r.choice(["UTC", "UTC", "Asia/Tokyo", "America/New_York"]))
        q["revs"] = [m.ref(g.head)]
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def recent(r):
    """Timelines that end now"""
    import time
    now = int(time.time())
    g = gen.RepoGen(r, authors=gen.PLAIN, merge=.1, jitter=0,
                    t0=now - r.choice([10, 3600, 5 * 86400, 59 * 86400, 61 * 86400, 400 * 86400, 1900 * 86400]),
                    step=(0, r.choice([1, 3600, 86400])))
    g.grow(r.randint(1, 10))
    for c in g.all:
        c["at"] = min(c["at"], now - 1)
    s = Scn().step(g.event(list(g.all)))
    for _ in range(6):
        q = rand_query(r, g, cmd="hist", revs=0, filt=0)
        if r.random() < .2:
            q["until"] = now - 1
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def bars(r):
    """Bucket totals around the bar width, zero-line and zero-file winners"""
    g = gen.RepoGen(r, authors=gen.PLAIN[:r.randint(1, 4)], merge=.05, jitter=0, t0=1600000000,
                    step=(0, 86400 // 3), empty=r.choice([.05, .4]), binp=r.choice([.05, .5]))
    for _ in range(r.randint(1, 6)):
        n = r.choice([1, 2, 5, 12, 13, 35, 36, 37, 72, 100])
        for _ in range(r.randint(1, 4)):
            par = [g.head] if g.all else []
            k = r.random()
            if k < .6:
                p = r.choice(gen.PATHS)
                g.add(par, ops=[m.w(p, n)])
            elif k < .75:
                g.add(par, ops=[])
            elif k < .85:
                g.add(par, ops=[m.binary("img")])
            else:
                g.add(par)
        g.t += r.choice([0, 86400, 3 * 86400])
    s = Scn().step(g.event(list(g.all)))
    for mode in ("commits", "lines", "files"):
        for e in (False, True):
            q = m.query(cmd="hist", mode=mode, email=e, merges=r.random() < .5, revs=[m.ref(g.head)],
                        tz=r.choice(ZONES))
            s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def busy(r):
    """More than 36 commits in a bucket"""
    g = gen.RepoGen(r, authors=gen.PLAIN[:r.randint(1, 5)], merge=0, jitter=0, t0=1600000000, binp=0,
                    step=(0, 40), ops=(0, 2))
    for _ in range(r.randint(1, 3)):
        for _ in range(r.choice([10, 36, 37, 50, 73])):
            g.add([g.head] if g.all else [])
        g.t += 86400 * r.randint(1, 3)
    s = Scn().step(g.event(list(g.all)))
    for mode in ("commits", "lines", "files"):
        q = m.query(cmd="hist", mode=mode, revs=[m.ref(g.head)], tz="UTC")
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def hist_empty(r):
    s, g = repo(r, n=r.randint(1, 6), authors=gen.PLAIN, future=.3, nobody=.3)
    for _ in range(5):
        q = rand_query(r, g, cmd="hist", revs=0, filt=0)
        k = r.random()
        if k < .4:
            q["au"] = ["no-such-person"]
        elif k < .7:
            q["until"] = 1000
        else:
            q["revs"] = [m.rng(g.head, g.head)]
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


# ---- C10 ----
def rand_mailmap(r, authors, k=None):
    out = []
    for _ in range(k if k is not None else r.randint(1, 5)):
        n, e = r.choice(authors)
        n2, e2 = r.choice(authors + [("Proper Name", "proper@new"), ("Other", "other@new")])
        if r.random() < .2:
            e = e.upper()
        y = r.random()
        if not e or not n2 or not e2:
            continue
        if y < .3:
            out.append(m.entry(nn=n2, oe=e))
        elif y < .5:
            out.append(m.entry(ne=e2, oe=e))
        elif y < .75:
            out.append(m.entry(nn=n2, ne=e2, oe=e))
        elif n:
            out.append(m.entry(nn=n2, ne=e2, on=n, oe=e))
        if r.random() < .2:
            out.append(dict(skip=True, raw="# comment <x@y>", nn="", ne="", on="", oe=""))
    return out


MMAUTHORS = [(n, e) for n, e in gen.PLAIN + gen.SHARED if n and e]


def mailmaps(r):
    cfg = (("log.mailmap", r.choice(["false", "false", "true"])),) if r.random() < .3 else ()
    s, g = repo(r, s=Scn(config=cfg), n=r.randint(5, 20), authors=MMAUTHORS, merge=.1)
    conf = rel_conf = None
    cur_r = cur_c = None
    confpath = r.choice([None, "conf/map", "../outside.map", ".mailmap2", "a map "])
    for _ in range(5):
        if r.random() < .75:
            k = r.random()
            if k < .45:
                cur_r = None if cur_r is not None and r.random() < .4 else rand_mailmap(r, MMAUTHORS)
            elif k < .85:
                cur_c = None if cur_c is not None and r.random() < .4 else rand_mailmap(r, MMAUTHORS)
            elif cur_r is not None and cur_c is not None:
                cur_r, cur_c = cur_c, cur_r
            else:
                cur_r = rand_mailmap(r, MMAUTHORS)
                cur_c = rand_mailmap(r, MMAUTHORS)
            kw = dict(confpath=confpath) if confpath else {}
            s.add("mailmap", repo=cur_r, conf=cur_c, **kw)
        if r.random() < .25:
            some_ignored(r, s, g)
        for _ in range(3):
            q = rand_query(r, g, revs=.1, filt=0, cwd=.3)
            if r.random() < .35:
                q["au"] = patterns(r, MMAUTHORS + [("Proper Name", "proper@new")])
            if r.random() < .25:
                q["nau"] = patterns(r, MMAUTHORS + [("Proper Name", "proper@new")])
            s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def mailmap_moves(r):
    """Text moves between the files, files emptied, rules split differently"""
    s, g = repo(r, n=r.randint(4, 12), authors=MMAUTHORS, merge=.05)
    es = rand_mailmap(r, MMAUTHORS, 4) or [m.entry(nn="P", oe="alice@x")]
    states = []
    for k in range(len(es) + 1):
        states.append((es[:k], es[k:]))
    states += [(None, es), (es, None), ([], es), (es, []), (None, None), ([], [])]
    r.shuffle(states)
    if r.random() < .4:
        some_ignored(r, s, g)
    for a, c in states[:6]:
        s.add("mailmap", repo=a, conf=c)
        for _ in range(2):
            q = rand_query(r, g, mode=r.choice(DIFF), revs=0, filt=0)
            s.run(q, argv=line(r, q), par=r.choice((2, 8)))
        q = rand_query(r, g, revs=0, filt=0)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def mailmap_cuts(r):
    """The same text, cut in two at different places, in the middle of lines"""
    s, g = repo(r, n=r.randint(4, 10), authors=MMAUTHORS, merge=.05, nobody=0)
    es = [e for e in rand_mailmap(r, MMAUTHORS, 3) if not e.get("skip")]
    e = r.choice(g.all)["ae"]
    last = r.choice([m.entry(nn="Proper Name", oe=e), m.entry(nn="Proper Name", ne="proper@new", oe=e)])
    note = lambda t: dict(skip=True, raw=t, nn="", ne="", on="", oe="")
    if r.random() < .5:
        # a comment, or a rule after a comment that was cut off
        text = "# was" + "Proper Name " + ("<proper@new> " if last["ne"] else "") + "<" + e + ">"
        states = [(es + [note("# was")], [last], True), (es + [note(text)], [], False),
                  ([], es + [note(text)], False), (None, es + [note(text)], False)]
    else:
        # half a name is no rule
        half = dict(last, nn="Name")
        states = [(es + [note("Proper ")], [half], True), (es + [last], [], False), ([], es + [last], False)]
    if r.random() < .3:
        some_ignored(r, s, g)
    for k in [0, 1, 2][r.randint(0, 1):] + [r.randrange(len(states)) for _ in range(4)]:
        a, b, cut = states[k]
        s.add("mailmap", repo=a, conf=b, cut=cut)
        q = m.query(cmd=r.choice(["table", "tree"]), mode=r.choice(DIFF), csv=r.random() < .5, email=r.random() < .5)
        s.run(q, argv=line(r, q), par=r.choice((2, 8)))
        q = rand_query(r, g, revs=0, filt=0)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def some_ignored(r, s, g):
    """A list of ignored commits (perhaps empty, perhaps none)"""
    ids = [c["id"] for c in g.all]
    some = r.choice([None, [], r.sample(ids, r.randint(1, min(3, len(ids))))])
    if some is None:
        s.add("ignore", ids=None)
    else:
        s.add("ignore", ids=some, text=ignore_text(r, some, ids))


# ---- C12 ----
def ignores(r):
    s, g = repo(r, n=r.randint(5, 20), authors=gen.PLAIN, merge=.15)
    ids = [c["id"] for c in g.all]
    for _ in range(5):
        k = r.random()
        if k < .2:
            s.add("ignore", ids=None)
        else:
            some = r.sample(ids, r.randint(0, min(len(ids), 6)))
            s.add("ignore", ids=some, text=ignore_text(r, some, ids))
        for _ in range(3):
            q = rand_query(r, g, revs=.15, filt=.1, paths=.1, cwd=.35)
            s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def ignore_text(r, some, ids):
    out = []
    for i in some:
        out.append(r.choice(["", " ", "\t", ""]) + "{h:%d}" % i
                   + r.choice(["", " ", "\r", "  # why", " #x", ""]) + "\n")
    for _ in range(r.randint(0, 4)):
        i = r.choice(ids)
        out.insert(r.randint(0, len(out)), r.choice(
            ["\n", "# {h:%d}\n" % i, "#\n", "   \n", "0123456789012345678901234567890123456789\n",
             "{s:%d}\n" % i, "not a hash\n", "# comment\n"] + ["#" + " why" * 20000 + "\n"] * (r.random() < .2)))
    t = "".join(out)
    if t.endswith("\n") and r.random() < .3:
        t = t[:-1]
    return t


# ---- C22 ----
LONGNAMES = [("x" * k, "x%d@e" % k) for k in (5, 24, 25, 26, 30, 31, 32, 33, 34, 60)] + \
    [("漢" * k, "k%d@e" % k) for k in (10, 12, 13, 15, 16, 17, 30)] + \
    [("é" * 3 + "e\u0301" * 20, "combining@e"), ("a\u0301" * 40, "c2@e"), ("字a" * 12, "mix@e"),
     ("🎉" * 17, "party@e"), ("Name, \"quoted\"", "q@e"), ("tab", "a" * 60 + "@e"), ("=1+1", "f@e")]


def wide_names(r):
    s, g = repo(r, n=r.randint(6, 25), authors=r.sample(LONGNAMES, 8) + gen.PLAIN[:2], merge=.1)
    for _ in range(10):
        q = rand_query(r, g, csv=.3, revs=.1, filt=0)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def ages(r):
    """Commit times at the limits of the relative time units"""
    import time
    now = int(time.time())
    d = 86400
    g = gen.RepoGen(r, authors=[("Author %d" % i, "a%d@x" % i) for i in range(30)], merge=0, jitter=0)
    pts = [0, 59, 60, 61, 3540, 3599, 3600, 7199, 7200, d - 1, d, 2 * d - 1, 2 * d, 7 * d - 1, 7 * d,
           14 * d - 1, 14 * d, 29 * d, 30 * d - 1, 30 * d, 60 * d - 1, 60 * d, 364 * d, 365 * d - 1, 365 * d,
           730 * d - 1, 730 * d, 3650 * d, 15000 * d]
    r.shuffle(pts)
    for i, p in enumerate(pts[:22]):
        at = now - p - r.choice([0, 0, 20, -20])
        at = max(1, min(at, now - 1))
        g.add([g.head] if g.all else [], an="Author %d" % i, ae="a%d@x" % i, at=at, ct=now,
              ops=[m.w("f%d" % i, 1)])
    s = Scn().step(g.event(list(g.all)))
    for mode in MODES:
        q = m.query(cmd="table", mode=mode, csv=False, n=0, email=r.random() < .4)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    for mode in ("last", "first"):
        q = m.query(cmd="tree", mode=mode, all=True)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def numbers(r, i=0):
    """Numbers in every range of the human format"""
    g = gen.RepoGen(r, authors=gen.PLAIN, merge=0, jitter=0)
    sizes = [999, 1000, 1001, 1999, 9999, 10000, 99999, 100000, 999999, 1000000, 1000001, 1049999,
             1050000, 1050001, 1949999, 1950001, 1999999]
    g.add([], ops=[m.w("seed", 1)])
    for k in range(4):
        n, e = gen.PLAIN[k]
        g.add([g.head], an=n, ae=e, ops=[dict(m.w("big%d" % k, sizes[(4 * i + k) % len(sizes)]), blank=True)])
    s = Scn().step(g.event(list(g.all)))
    for cmd, mode, csv in (("table", "lines", False), ("table", "lines", True), ("table", "files", False),
                           ("tree", "lines", False), ("hist", "lines", False)):
        q = m.query(cmd=cmd, mode=mode, csv=csv, n=0)
        if cmd == "hist":
            q["revs"] = [m.ref(g.head)]
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def huge_numbers(r, i=0):
    """Line totals up to and beyond a hundred million: one blob under many paths"""
    g = gen.RepoGen(r, authors=gen.PLAIN, merge=0, jitter=0)
    edge = [(100, 0), (100, 1), (99, 999999), (99, 949999), (99, 950001), (101, 0), (10, 49999), (10, 50001), (49, 0)]
    sizes = edge[:2] if i == 0 else [(99, 999999), r.choice(edge)] if i == 1 else r.sample(edge, 2)
    for a, (k, extra) in enumerate(sizes):
        n, e = gen.PLAIN[a]
        g.add([g.head] if g.all else [], an=n, ae=e,
              ops=[dict(m.w("%s/p%03d" % ("de"[a], j), 1000000), blank=True) for j in range(k)] +
              ([dict(m.w("x%d" % a, extra), blank=True)] if extra else []))
    g.add([g.head], an=gen.PLAIN[2][0], ae=gen.PLAIN[2][1], ops=[m.w("y", 3)])
    s = Scn().step(g.event(list(g.all)))
    for cmd, csv in (("table", False), ("table", True), ("tree", False), ("hist", False)):
        q = m.query(cmd=cmd, mode="lines", csv=csv, n=0, d=1 if cmd == "tree" else 0)
        if cmd == "hist":
            q["revs"] = [m.ref(g.head)]
        s.run(q, argv=line(r, q), par=r.choice((1, 8)))
    return s


def many_commits(r):
    """Commit counts beyond 999"""
    k = r.choice([999, 1000, 1001, 1234])
    g = gen.RepoGen(r, authors=gen.PLAIN, merge=0, jitter=0)
    par = []
    for i in range(k):
        g.add(par, an="Alice", ae="alice@x", ops=[], at=1600000000 + i, ct=1600000000 + i)
        par = [g.head]
    g.add(par, an="Bob", ae="bob@x", ops=[m.w("f", 1)])
    s = Scn().step(g.event(list(g.all)))
    for cmd in ("table", "hist", "tree"):
        q = m.query(cmd=cmd, csv=False, n=0)
        if cmd == "hist":
            q["revs"] = [m.ref(g.head)]
        s.run(q, argv=line(r, q), par=r.choice((1, 8)))
    q = m.query(cmd="table", csv=False, n=0, mode="lines")
    s.run(q, argv=line(r, q), par=8)
    return s


# ---- C04 ----
def chunk_repo(r, n=None):
    """A history of one or more whole batches of 1024 commits"""
    n = n if n is not None else r.choice([1023, 1024, 1025, 2047, 2048, 2049, 3072, 3073, 2500])
    g = gen.RepoGen(r, authors=r.choice([gen.PLAIN, gen.SHARED, gen.PLAIN[:2]]), mvp=0, delp=.02,
                    paths=["a", "b", "d/c", "d/e", "d/f/g"], merge=0, ops=(1, 1), big=3,
                    empty=r.choice([.1, .5]), t0=1600000000, jitter=r.choice([0, 86400 * 30]),
                    step=(0, r.choice([60, 3600, 20000])), tie=r.choice([.1, .5]))
    g.linear(n)
    return Scn().step(g.event(list(g.all))), g


def big_queries(r, g, k=3):
    """Queries that need diffs, in each view"""
    out = []
    for cmd, mode in r.sample([("table", "lines"), ("table", "files"), ("hist", "lines"), ("hist", "files"),
                               ("tree", "commits"), ("tree", "lines"), ("tree", "files"), ("tree", "last"),
                               ("tree", "first")], k):
        q = m.query(cmd=cmd, mode=mode, csv=True, email=r.random() < .4, merges=r.random() < .4)
        if cmd == "hist":
            q["revs"] = [m.ref(g.head)]
        if r.random() < .25:
            q["paths"] = [m.path(r.choice(["d", "a", "d/f"]))]
        out.append(q)
    return out


def batches(r):
    """Sequential and parallel runs, batches finishing in every order"""
    s, g = chunk_repo(r)
    for q in big_queries(r, g, 2):
        q = dict(q, cache=False)
        k = (len(g.all) + 1023) // 1024
        ids = [s.run(q, argv=m.argv(q), par=1), s.run(q, argv=m.argv(q), par=r.choice([2, 3, 8]))]
        perm = list(range(k))
        r.shuffle(perm)
        ids.append(s.run(q, argv=m.argv(q), par=8, plan=["logstdin %d order %d" % (i, o)
                                                         for i, o in enumerate(perm)]))
        ids.append(s.run(q, argv=m.argv(q), par=r.choice([2, 3]), plan=["logstdin * slow %d" % r.choice([1, 4])]))
        s.same(ids)
    return s


def batches_resumed(r):
    """Part of the history is in the cache already"""
    n = r.choice([1024, 1025, 1500, 2049])
    s, g = chunk_repo(r, n)
    a, b = sorted(r.sample(range(1, n + 1), 2))
    q0 = m.query(cmd="table", mode="lines", revs=r.choice([[m.rng(a, b)], [m.ref(b)], [m.ref(a)]]))
    s.run(q0, argv=m.argv(q0), par=8)
    for q in big_queries(r, g, 2):
        warm = s.run(q, argv=m.argv(q), par=r.choice([2, 8]))
        again = s.run(q, argv=m.argv(q), par=r.choice([2, 8]), shim=True)
        p = dict(q, cache=False)
        s.same([warm, again, s.run(p, argv=m.argv(p), par=r.choice([1, 8]))])
    return s


def parallelism(r):
    """Small histories with merges and renames, every number of processors"""
    s, g = repo(r, n=r.randint(5, 30), nobody=.04, future=.04)
    for _ in range(4):
        q = rand_query(r, g, paths=.25, cwd=.2)
        if r.random() < .5 and q["cmd"] == "table":
            q["mode"] = r.choice(DIFF)
        q["cache"] = r.random() < .5
        a = line(r, q)
        s.same([s.run(q, argv=a, par=p) for p in (1, 2, 3, 8)])
    return s


# ---- C05, C09 ----
FAULTS = [lambda r: "cut %d %d" % (r.choice([0, 1, 100, 300, 500, 700, 900, 999, 1000]), r.choice([1, 2, 128, 255])),
          lambda r: "kill %d %d" % (r.choice([0, 1, 200, 500, 800, 999, 1000]), r.choice([9, 15, 11, 13, 6])),
          lambda r: "last %d %d" % (r.choice([1, 2, 3, 5, 10, 30, 100]), r.choice([1, 128])),
          lambda r: "exit %d" % r.choice([1, 2, 3, 127, 128, 255]),
          lambda r: "deny %d" % r.choice([1, 2, 128])]


def fault(r, kind=None, idx=None):
    kind = kind or r.choice(["rev-parse", "log", "logstdin", "logstdin", "logstdin", "ls-files", "config"])
    act = r.choice(FAULTS)(r)
    if kind == "config":
        # exit status 1 means that the setting is not there
        act = r.choice(["deny %d" % r.choice([2, 3, 128]), "kill 0 %d" % r.choice([9, 15]),
                        "exit %d" % r.choice([2, 128])])
    if idx is None:
        idx = r.choice([0, 0, 0, 1, 2, 3]) if kind == "rev-parse" else 0
    return "%s %d %s" % (kind, idx, act)


def git_faults(r):
    """One git process fails"""
    s, g = repo(r, n=r.randint(3, 20))
    if r.random() < .4:
        s.add("mailmap", repo=rand_mailmap(r, MMAUTHORS), conf=None)
    if r.random() < .3:
        s.add("ignore", ids=[1], text="{h:1}\n")
    for _ in range(12):
        q = rand_query(r, g, paths=.3, cwd=.2, filt=.2)
        if r.random() < .5:
            q["mode"] = r.choice(DIFF)
        q["cache"] = r.random() < .4
        plan = [fault(r)]
        if q["cmd"] == "tree" and r.random() < .3:
            plan = [fault(r, "ls-files")]
        if r.random() < .2:
            plan.append("any * err %d" % r.choice([10, 1000, 100000]))
        s.run(q, argv=line(r, q), par=r.choice(PARS), plan=plan, fate="gitfail?")
        if q["cache"]:
            s.add("cachelost")
    return s


def batch_faults(r):
    """One of several batches fails before, between or after the others"""
    s, g = chunk_repo(r, r.choice([2049, 3073, 4097]))
    k = (len(g.all) + 1023) // 1024
    for q in big_queries(r, g, 3):
        q = dict(q, cache=r.random() < .3)
        bad = r.randrange(k)
        plan = [fault(r, "logstdin", bad)]
        x = r.random()
        if x < .4:      # it ends last
            plan.append("logstdin %d order %d" % (bad, k - 1))
        elif x < .7:    # the others wait for it
            plan += ["logstdin %d order 1" % i for i in range(k) if i != bad]
        s.run(q, argv=m.argv(q), par=r.choice([2, 3, 8]), plan=plan, fate="gitfail?")
        if q["cache"]:
            s.add("cachelost")
    return s


def schedules(r, i):
    """Git processes end in every order the pipeline allows, some of them failing"""
    from . import models
    n = (4, 3, 4, 2)[i % 4]
    todo = [x for x in models.schedules() if x["n"] == n]
    random.Random("sched%d" % n).shuffle(todo)
    k = 8 if n > 2 else 12
    start = (i // 4) * k * (1 if n < 4 else 2) + (k if i % 4 == 2 else 0)
    s, g = chunk_repo(r, 1024 * (n - 1) + r.choice([1, 2, 500, 1023, 1024]))
    qs = big_queries(r, g, 3)
    for j in range(k):
        x = todo[(start + j) % len(todo)]
        q = dict(r.choice(qs), paths=[], cache=r.random() < .4)
        plan, place = [], {}
        for pos, f in enumerate(x["fin"]):
            place[f["i"]] = pos
            if f["f"] == "fail":
                plan.append(fault(r, "logstdin", f["i"]))
        for b in range(n):
            # the others end after those
            plan.append("logstdin %d order %d" % (b, place.get(b, len(x["fin"]))))
        bad = any(f["f"] == "fail" for f in x["fin"])
        s.run(q, argv=m.argv(q), par=x["p"], plan=plan, fate="gitfail?" if bad else "ok")
        if q["cache"]:
            if r.random() < .5:
                s.run(q, argv=m.argv(q), par=r.choice([2, 8]))
            s.add("cachelost")
    return s


def last_batch_fails(r):
    """The very last thing to happen is a failure"""
    s, g = repo(r, n=r.randint(2, 12), authors=gen.PLAIN)
    for _ in range(12):
        q = rand_query(r, g, mode=r.choice(DIFF), revs=.2, filt=0)
        plan = ["logstdin 0 " + r.choice(["exit 1", "exit 128", "kill 1000 9", "last 1 1"]),
                "logstdin 0 delay %d" % r.choice([0, 1, 5, 20])]
        q["cache"] = False
        s.run(q, argv=line(r, q), par=r.choice((2, 3, 8)), plan=plan, fate="gitfail?")
    return s


def chatter(r):
    """Healthy git that writes to stderr, slowly, or stays around"""
    s, g = repo(r, n=r.randint(3, 20))
    for _ in range(6):
        q = rand_query(r, g, paths=.2, cwd=.2)
        acts = ["any * err %d" % r.choice([1, 100, 65536, 70000, 300000]),
                "any * errafter %d" % r.choice([1, 65537, 300000]),
                "any * slow %d" % r.choice([1, 3]), "any * linger %d" % r.choice([1, 30]),
                "logstdin * err %d" % r.choice([65537, 200000]), "log * err 100000",
                "rev-parse * err 100000", "config * err 100000", "ls-files * err 100000"]
        s.run(q, argv=line(r, q), par=r.choice(PARS), plan=r.sample(acts, r.choice([1, 1, 2])), timeout=40)
    return s


def failed_then_fine(r):
    """A run that failed or was killed, then healthy ones"""
    s, g = repo(r, n=r.randint(4, 22), merge=.1)
    for _ in range(5):
        q = rand_query(r, g, cmd=r.choice(["table", "table", "tree", "hist"]), mode=r.choice(DIFF), revs=.3,
                       filt=.1, paths=.2)
        if r.random() < .75:
            plan = [fault(r, r.choice(["logstdin", "logstdin", "logstdin", "log"]), 0)]
            s.run(q, argv=line(r, q), par=r.choice((2, 8)), plan=plan, fate="gitfail?")
        else:
            # git hangs; git-who is killed, later git as well
            s.run(q, argv=line(r, q), par=r.choice((2, 8)),
                  plan=["logstdin 0 hang %d" % r.choice([0, 100, 500, 900, 1000])],
                  hang="logstdin", fate="killed")
        for _ in range(2):
            p = q if r.random() < .6 else rand_query(r, g, mode=r.choice(DIFF), revs=.3, filt=.1, paths=.2)
            s.run(p, argv=line(r, p), par=r.choice((2, 8)), shim=r.random() < .3, nofetch=True)
        if r.random() < .4:
            new = g.grow(r.randint(1, 3))
            s.step(g.event(list(new), head=g.head))
    return s


def failed_batch_then_fine(r):
    """Some batches reached the cache, one did not"""
    s, g = chunk_repo(r, r.choice([1025, 2049, 2500]))
    k = (len(g.all) + 1023) // 1024
    for q in big_queries(r, g, 2):
        bad = r.randrange(k)
        plan = [fault(r, "logstdin", bad)]
        if r.random() < .7:
            plan.append("logstdin %d order %d" % (bad, k - 1))
        s.run(q, argv=m.argv(q), par=r.choice((2, 8)), plan=plan, fate="gitfail?")
        ids = [s.run(q, argv=m.argv(q), par=8), s.run(q, argv=m.argv(q), par=3)]
        p = dict(q, cache=False)
        s.same(ids + [s.run(p, argv=m.argv(p), par=8)])
        s.add("cachelost")
        s.step(dict(ev="damage", how="remove", seed=1))
    return s


# ---- C07 ----
def cache_life(r, n=12):
    """Commits, rebases, mailmap and ignore edits between runs of every kind"""
    au = MMAUTHORS
    s, g = repo(r, n=r.randint(3, 15), authors=au, merge=.15, jitter=r.choice([0, 86400]))
    heads = [g.head]
    for _ in range(n):
        x = r.random()
        if x < .2:
            new = g.grow(r.randint(1, 4))
            heads.append(g.head)
            s.step(g.event(list(new)))
        elif x < .3:
            # amended: another commit on the parent of HEAD
            c = g.all[-1]
            if c["par"]:
                new = [g.add(list(c["par"]))]
                s.step(g.event(new))
                heads.append(g.head)
        elif x < .38:
            h = r.choice(heads + [c["id"] for c in g.all])
            s.step(g.event([], head=h))
        elif x < .5:
            k = r.random()
            s.add("mailmap", repo=None if k < .3 else rand_mailmap(r, au),
                  conf=None if k > .2 else rand_mailmap(r, au))
        elif x < .6:
            ids = r.sample([c["id"] for c in g.all], r.randint(0, min(3, len(g.all))))
            s.add("ignore", ids=ids or None)
        cmd = r.choice(["table", "table", "tree", "hist"])
        q = rand_query(r, g, cmd=cmd, mode=r.choice(DIFF if cmd != "tree" else MODES), paths=.3, cwd=.25,
                       filt=.25, revs=.3)
        a = line(r, q)
        par = r.choice((2, 3, 8))
        x = s.run(q, argv=a, par=par, shim=True)
        y = s.run(dict(q, cache=False), argv=a, par=r.choice(PARS))
        s.same([x, y])
        if r.random() < .5:
            z = s.run(q, argv=a, par=r.choice((2, 8)), shim=True)
            s.same([y, z])
    return s


def cache_zones(r):
    """The same commits in different time zones"""
    s, g = repo(r, n=r.randint(3, 15))
    for _ in range(5):
        q = rand_query(r, g, cmd=r.choice(["hist", "hist", "table"]), mode=r.choice(DIFF),
                       tz=r.choice(ZONES + ("Pacific/Kiritimati", "Pacific/Pago_Pago")))
        a = line(r, q)
        s.same([s.run(q, argv=a, par=r.choice((2, 8))), s.run(dict(q, cache=False), argv=a, par=r.choice(PARS))])
    return s


def cache_big(r):
    """Histories read and extended over several batches"""
    s, g = chunk_repo(r, r.choice([1024, 1100, 2049]))
    for k in range(2):
        for q in big_queries(r, g, 1):
            x = s.run(q, argv=m.argv(q), par=8, shim=True)
            z = s.run(q, argv=m.argv(q), par=r.choice((2, 8)), shim=True)
            p = dict(q, cache=False)
            s.same([x, z, s.run(p, argv=m.argv(p), par=8)])
        new = g.linear(r.choice([1, 5, 1024]))
        s.step(g.event(list(new)))
    q = big_queries(r, g, 1)[0]
    s.run(q, argv=m.argv(q), par=8, shim=True)
    s.run(q, argv=m.argv(q), par=8, shim=True)
    return s


# ---- C08 ----
DAMAGE = [lambda r: dict(how="truncate", frac=r.random()), lambda r: dict(how="truncate", off=r.choice([1, 2, 3, 4, 8, 9, 20])),
          lambda r: dict(how="flip", count=r.choice([1, 1, 2, 10])), lambda r: dict(how="overwrite"),
          lambda r: dict(how="zero"), lambda r: dict(how="empty"), lambda r: dict(how="garbage"),
          lambda r: dict(how="append"), lambda r: dict(how="double"),
          lambda r: dict(how="inflates", count=r.choice([1, 5, 40, 400])),
          lambda r: dict(how="leftover", frac=r.random(), alone=r.random() < .5),
          lambda r: dict(how="leftover", frac=1.0, alone=r.random() < .5)]


def damage(r):
    s, g = repo(r, n=r.randint(3, 25), merge=.1)
    names = sorted({c["an"] for c in g.all} | {p for t in g.trees.values() for p in t})
    for k in range(7):
        q = rand_query(r, g, cmd=r.choice(["table", "tree", "hist"]), mode=r.choice(DIFF), revs=.2, filt=.1,
                       paths=.15)
        if k == 0:
            q = dict(m.query(cmd="table", mode="lines", csv=True, n=0))
        a = line(r, q)
        s.run(q, argv=a, par=r.choice((2, 8)))
        how = r.choice(DAMAGE)(r) if k else dict(how="inflates", count=r.choice([1, 5, 40]), texts=names)
        s.step(dict(how, ev="damage", seed=r.randrange(1 << 30)))
        if r.random() < .3:
            new = g.grow(r.randint(1, 3))
            s.step(g.event(list(new)))
        s.run(q, argv=a, par=r.choice((2, 8)))
        s.run(q, argv=a, par=r.choice((2, 8)))
    return s


def crash_points(r, i=0):
    """A run is stopped at its k-th file operation, or the k-th fails"""
    s, g = repo(r, n=r.randint(3, 14), merge=.1)
    q0 = rand_query(r, g, cmd="table", mode=r.choice(DIFF), revs=0, filt=0)
    q1 = rand_query(r, g, cmd=r.choice(["table", "tree", "hist"]), mode=r.choice(DIFF), revs=0, filt=0)
    for k in r.sample(range(15), 5):
        if r.random() < .5:
            s.step(dict(ev="damage", how="remove", seed=1))
        else:
            new = g.grow(r.randint(1, 3))
            s.step(g.event(list(new)))
        x = r.random()
        if x < .35:
            f = "crash %d" % k
        elif x < .65:
            f = "torn %d %d" % (k, r.choice([1, 2, 3, 5, 17, 60, 200]))
        elif x < .8:
            f = "fail %d %d" % (k, r.choice([28, 5, 13, 30, 24]))
        elif x < .92:
            f = "failfrom %d %d" % (k, r.choice([28, 5, 30]))
        else:
            f = "short %d %d 28" % (k, r.choice([1, 3, 10, 50]))
        s.run(q0, argv=line(r, q0), par=r.choice((2, 8)), fs=[f], fate="killed?")
        for _ in range(2):
            p = r.choice([q0, q1])
            s.run(p, argv=line(r, p), par=r.choice((2, 8)))
    return s


def crash_big(r):
    """Crashes between batches"""
    s, g = chunk_repo(r, r.choice([1025, 2049]))
    q = big_queries(r, g, 1)[0]
    for k in r.sample(range(24), 3):
        s.run(q, argv=m.argv(q), par=8, fs=[r.choice(["crash %d" % k, "torn %d %d" % (k, r.choice([1, 2, 3, 100, 3000])),
                                                      "fail %d 28" % k])], fate="killed?")
        for _ in range(2):
            s.run(q, argv=m.argv(q), par=r.choice((2, 8)))
        s.step(dict(ev="damage", how="remove", seed=1))
    return s


def fs_refuses(r):
    """Cache directories that cannot be used"""
    s, g = repo(r, n=r.randint(3, 12), merge=.1)
    for _ in range(6):
        q = rand_query(r, g, mode=r.choice(DIFF), revs=.2, filt=0)
        a = line(r, q)
        k = r.randrange(13)
        s.run(q, argv=a, par=r.choice((2, 8)), fs=[r.choice(["fail %d %d" % (k, r.choice([28, 13, 30, 5, 24])),
              "failfrom %d %d" % (k, r.choice([28, 13, 30]))])], fate="killed?")
        s.run(q, argv=a, par=r.choice((2, 8)))
    return s


# ---- C11 ----
ODDDIRS = ["[", "[r]epo", "re*", "r?po", "re\\po", "{a,b}", "-x", "rep%o", "a[/b]", "x/*", ".hid"]


def disk(r):
    """What runs leave behind, in one repository"""
    s, g = repo(r, s=Scn(disk=True, **(dict(repo=r.choice(ODDDIRS)) if r.random() < .5 else {})),
                n=r.randint(3, 15), authors=MMAUTHORS)
    for _ in range(10):
        x = r.random()
        if x < .2:
            new = g.grow(r.randint(1, 3))
            s.step(g.event(list(new)))
        elif x < .35:
            s.add("mailmap", repo=rand_mailmap(r, MMAUTHORS), conf=None)
        elif x < .42:
            s.step(dict(ev="damage", how=r.choice(["leftover", "truncate", "garbage"]), frac=r.random(),
                        seed=r.randrange(1 << 30)))
        q = rand_query(r, g, paths=.2, cwd=.3, filt=.15)
        if r.random() < .6:
            q["mode"] = r.choice(DIFF)
        q["cache"] = r.random() < .8
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def neighbours(r):
    """Several repositories: same names, clones, copies, replaced ones"""
    s, g = repo(r, s=Scn(disk=True), n=r.randint(3, 10))
    names = ["repo"]
    gens = {"repo": g}
    cur = "repo"
    used = 0
    for _ in range(12):
        x = r.random()
        if x < .2 and len(names) < 5:
            to = r.choice(["other", "a/repo", "b/repo", "a/other", "b/c/repo", "repo2", "re po", "[", "[r]epo", "re*", "r?po", "re\\po", "{a,b}", "-x", "rep%o"])
            if to not in names:
                s.add("switch", to=to)
                g2 = gen.RepoGen(r, authors=r.choice(AUTHORSETS))
                g2.grow(r.randint(2, 8))
                g2.join()
                s.step(g2.event(list(g2.all)))
                names.append(to)
                gens[to] = g2
                cur = to
        elif x < .35 and len(names) < 5:
            to = r.choice(["clone", "x/repo", "y/repo", "copy"])
            if to not in names:
                import copy
                s.add("clone", to=to, copy=r.random() < .4)
                names.append(to)
                gens[to] = copy.deepcopy(gens[cur])
                cur = to
        elif x < .45:
            s.add("replace")
            g2 = gen.RepoGen(r, authors=r.choice(AUTHORSETS))
            g2.grow(r.randint(2, 8))
            g2.join()
            s.step(g2.event(list(g2.all)))
            gens[cur] = g2
        elif x < .6:
            g2 = gens[cur]
            new = g2.grow(r.randint(1, 3))
            s.step(g2.event(list(new)))
        else:
            to = r.choice(names)
            if to != cur:
                s.add("switch", to=to)
                cur = to
        if r.random() < .15:        # in all of their caches
            s.step(dict(ev="damage", how=r.choice(["garbage", "truncate", "empty", "leftover"]), off=r.randint(1, 40),
                        frac=r.random(), seed=r.randrange(1 << 30)))
        q = rand_query(r, gens[cur], mode=r.choice(DIFF), paths=.15, filt=.1, revs=.2)
        s.run(q, argv=line(r, q), par=r.choice((2, 8)), shim=True)
    return s


# ---- C21 ----
def repeats(r):
    """The same command again and again, cold and warm"""
    na = r.randint(2, 7)
    au = r.choice([gen.SHARED, gen.PLAIN, [("N%d" % i, "same@x") for i in range(na)],
                   [("Same", "s%d@x" % i) for i in range(na)]])
    s, g = repo(r, n=r.randint(4, 25), authors=au, tie=r.choice([.2, .9, 1.0]), big=r.choice([1, 3]), jitter=0,
                step=r.choice([(0, 0), (0, 1), (0, 86400)]), t0=1600000000)
    for _ in range(5):
        q = rand_query(r, g, revs=.2, filt=0, paths=.1)
        if q["cmd"] == "hist" and not q["revs"]:
            q["revs"] = [m.ref(g.head)]
        a = line(r, q)
        ids = []
        for k in range(5):
            x = r.random()
            if x < .3:
                s.step(dict(ev="damage", how="remove", seed=1))
            ids.append(s.run(dict(q, cache=r.random() < .7), argv=a, par=r.choice(PARS),
                             plan=["logstdin * delay %d" % r.choice([0, 2])] if r.random() < .2 else None,
                             nofetch=True))
        s.same(ids)
    return s


def repeats_big(r):
    """Ties over several batches"""
    s, g = chunk_repo(r, r.choice([2049, 3073]))
    k = (len(g.all) + 1023) // 1024
    for q in big_queries(r, g, 2):
        q["email"] = r.random() < .7
        ids = []
        for _ in range(4):
            perm = list(range(k))
            r.shuffle(perm)
            ids.append(s.run(dict(q, cache=False), argv=m.argv(q), par=8,
                             plan=["logstdin %d order %d" % (i, o) for i, o in enumerate(perm)]))
        s.same(ids)
    return s


# ---- C23 ----
def stories(r):
    """Table, tree and hist of one selection; parts and wholes"""
    s, g = repo(r, n=r.randint(3, 20), big=r.choice([1, 2, 5]), nobody=0, future=0,
                authors=r.choice([gen.PLAIN, gen.SHARED]), binp=.02, mvp=0, merge=r.choice([0, .2]))
    revs = r.choice([[], [m.ref(g.head)], gen.rand_revs(r, g)])
    if r.random() < .35:
        k = r.randrange(3)
        mm = lambda: rand_mailmap(r, MMAUTHORS, 3)
        s.add("mailmap", repo=None if k == 0 else mm(), conf=None if k == 1 else mm())
    if r.random() < .25:
        ids = [c["id"] for c in g.all]
        s.add("ignore", ids=r.sample(ids, r.randint(1, max(1, len(ids) // 3))))
    for mode in r.sample(("commits", "lines", "files", "last", "first"), 3):
        e = r.random() < .5
        mg = r.random() < .3
        kw = dict(mode=mode, email=e, merges=mg, revs=revs, tz=r.choice(ZONES))
        t = m.query(cmd="table", **kw)
        a = s.run(t, argv=line(r, t), par=r.choice(PARS), keep=True)
        x = m.query(cmd="tree", **kw)
        b = s.run(x, argv=line(r, x), par=r.choice(PARS), keep=True)
        s.add("fit", how="root", whole=b, parts=[a], cols=[])
        if mode in ("commits", "lines"):
            h = m.query(cmd="hist", **dict(kw, revs=revs or [m.ref(g.head)]))
            c = s.run(h, argv=line(r, h), par=r.choice(PARS), keep=True)
            s.add("fit", how="hist", whole=c, parts=[a], cols=[])
    return s


def views(r):
    """One selection of any kind in every subcommand"""
    s, g = repo(r, n=r.randint(4, 16), authors=MMAUTHORS, nobody=0, future=0, binp=.02, merge=.15)
    for _ in range(4):
        k = r.randrange(4)
        mm = lambda: rand_mailmap(r, MMAUTHORS, 4)
        s.add("mailmap", repo=None if k % 2 == 0 else mm(), conf=None if k < 2 else mm())
        if r.random() < .4:
            ids = [c["id"] for c in g.all]
            s.add("ignore", ids=r.choice([None, r.sample(ids, r.randint(1, max(1, len(ids) // 3)))]))
        q = rand_query(r, g, cmd="hist", revs=.3, filt=.3, paths=.2, merges=.3, cwd=.3)
        for mode in r.sample(("commits", "lines", "files"), 2):
            whole = {}
            for cmd in ("table", "tree", "hist"):
                x = dict(q, cmd=cmd, mode=mode, csv=True, n=0, d=0, all=False)
                if cmd == "hist" and not x["revs"]:
                    x["revs"] = [m.ref(g.head)]
                whole[cmd] = s.run(x, argv=line(r, x), par=r.choice(PARS), keep=True)
            if mode != "files":
                s.add("fit", how="hist", whole=whole["hist"], parts=[whole["table"]], cols=[])
    return s


COLS = ["lines added", "lines removed"]


def parts(r):
    """Disjoint paths; a linear history cut in two"""
    s, g = repo(r, n=r.randint(4, 25), mvp=0, merge=0, nobody=0, future=0, authors=gen.PLAIN)
    e = r.random() < .5
    top = sorted({p.split("/")[0] for c in g.all for o in c["ops"] for p in [o["p"]]})
    for mode in ("lines", "files"):
        some = r.sample(top, r.randint(1, len(top)))
        q = m.query(mode=mode, email=e, paths=[m.path(p) for p in some])
        w = s.run(q, argv=m.argv(q), par=r.choice(PARS), keep=True)
        ids = []
        for p in some:
            q = m.query(mode=mode, email=e, paths=[m.path(p)])
            ids.append(s.run(q, argv=m.argv(q), par=r.choice(PARS), keep=True))
        s.add("fit", how="sum", whole=w, parts=ids, cols=COLS)
    n = g.head
    for _ in range(2):
        a, b = sorted((r.randint(1, n), r.randint(1, n)))
        mode = r.choice(MODES)
        cols = ["commits"] + (COLS if mode in DIFF else [])
        ws = []
        for revs in ([m.rng(a, n)], [m.rng(a, b)], [m.rng(b, n)]):
            q = m.query(mode=mode, email=e, revs=revs)
            ws.append(s.run(q, argv=m.argv(q), par=r.choice(PARS), keep=True))
        s.add("fit", how="sum", whole=ws[0], parts=ws[1:], cols=cols)
    return s


# ---- C24 ----
def overlaps(r):
    """Runs at once on one cache, their file operations interleaved"""
    s, g = repo(r, n=r.randint(3, 12), merge=.1)
    for _ in range(3):
        if r.random() < .4:
            s.step(dict(ev="damage", how="remove", seed=1))
        qs = [rand_query(r, g, cmd=r.choice(["table", "tree", "hist"]), mode=r.choice(DIFF), revs=.25, filt=0)
              for _ in range(r.choice([2, 2, 3]))]
        if r.random() < .3:
            qs[1] = qs[0]
        runs = [dict(q=q, argv=line(r, q), par=r.choice((2, 8))) for q in qs]
        n = len(qs)
        x = r.random()
        if x < .3:
            sch = "".join(r.choice("ABC"[:n]) for _ in range(60))
        elif x < .7:        # long stretches
            sch = "".join(r.choice("ABC"[:n]) * r.randint(1, 14) for _ in range(12))
        else:               # one switch each way
            k, l = r.randint(1, 25), r.randint(1, 25)
            sch = "A" * k + "B" * l + "A" * 30 + "B" * 30
        s.overlap(runs, schedule=sch, reads=True)
        for q in r.sample(qs, 2):
            s.run(q, argv=line(r, q), par=r.choice((2, 8)))
        if r.random() < .5:
            new = g.grow(r.randint(1, 3))
            s.step(g.event(list(new)))
    return s


def overlaps_mailmap(r):
    """Overlapping runs that see different mailmaps, one deleting old cache files"""
    s, g = repo(r, n=r.randint(3, 12), merge=.1, authors=MMAUTHORS)
    qs = [rand_query(r, g, cmd="table", mode=r.choice(DIFF), revs=0, filt=0) for _ in range(2)]
    for _ in range(3):
        s.add("mailmap", repo=r.choice([None, rand_mailmap(r, MMAUTHORS)]), conf=None)
        if r.random() < .5:
            s.run(qs[0], argv=line(r, qs[0]), par=8)
        runs = [dict(q=q, argv=line(r, q), par=8) for q in qs]
        s.overlap(runs, schedule="".join(r.choice("AB") * r.randint(1, 9) for _ in range(14)), reads=True)
        s.run(qs[1], argv=line(r, qs[1]), par=8)
    return s


# ---- C06 ----
def termination(r):
    """Everything that might keep a run from ending"""
    f = r.choice([git_faults, chatter, hist_empty, tree_empty, shifty_zones, fs_refuses, last_batch_fails,
                  crash_points, recent, spans, damage])
    return f(r)


def termination_big(r):
    f = r.choice([batch_faults, batches, crash_big])
    return f(r)


def fs_batches(r):
    """The cache cannot be written while several batches are under way"""
    s, g = chunk_repo(r, r.choice([2049, 3073]))
    for q in big_queries(r, g, 3):
        k = r.randrange(20)
        s.run(q, argv=m.argv(q), par=r.choice((2, 3, 8)), fs=[r.choice(["fail", "failfrom"]) + " %d 28" % k],
              fate="killed?")
    return s


# ---- on a terminal ----
def terminal(r):
    """Many commits, with progress shown and erased; the same report as elsewhere"""
    s, g = chunk_repo(r, r.choice([1024, 2048, 2049, 3000, 3072, 3073, 4097]))
    if r.random() < .3:
        s.add("ignore", ids=r.sample(range(1, len(g.all) + 1), 3))
    warm = r.random() < .5
    if warm:
        # a part of the commits is stored already
        i = r.choice([3, len(g.all) // 8, len(g.all) // 3, len(g.all) // 2])
        q = m.query(cmd="table", mode="lines", csv=True, revs=[m.ref(i, "{h:%d}" % i)])
        s.run(q, argv=m.argv(q), par=2)
    for q in big_queries(r, g, 3):
        q["csv"] = r.random() < .3
        q["n"] = r.choice([0, 1, 2, 10])
        if q["cmd"] != "table":
            q["n"] = 0
        q["cache"] = r.random() < (.9 if warm else .4)
        a = m.argv(q)
        k = (len(g.all) + 1023) // 1024
        perm = list(range(k))
        r.shuffle(perm)
        plan = r.choice([None, ["logstdin %d order %d" % (i, o) for i, o in enumerate(perm)],
                         ["logstdin * delay %d" % r.choice([1, 20])]]) if not q["paths"] else None
        on = s.run(q, argv=a, par=r.choice([2, 2, 3]), tty=True, shim=True, **(dict(plan=plan) if plan else {}))
        off = s.run(dict(q, cache=False), argv=a, par=r.choice([1, 2, 8]))
        s.same([on, off])
    return s


def terminal_small(r):
    """Reports on a terminal that need no progress display"""
    s, g = repo(r, n=r.randint(1, 20))
    for _ in range(6):
        q = rand_query(r, g, filt=.2)
        a = line(r, q)
        par = r.choice(PARS)
        s.same([s.run(q, argv=a, par=par, tty=True), s.run(q, argv=a, par=par)])
    return s


# ---- reports that cannot be written in full ----
def strained(r):
    """Output that may run out of room anywhere, within any command's report"""
    big = r.random() < .5
    if big:         # more than a buffer of text
        au = [("%s %d" % (r.choice(["Ada Lovelace", "\u00c9mile", "B"]), i), "u%d@%s.example" % (i, "x" * r.randint(1, 30)))
              for i in range(r.choice([40, 90, 160]))]
        s, g = repo(r, n=r.choice([50, 100, 150]), authors=au, step=(60, 20 * 86400))
    else:
        s, g = repo(r, n=r.randint(1, 25))
    for k in range(4):
        q = rand_query(r, g, filt=.1, cmd=["table", "tree", "hist", "table"][k] if big else None)
        q["csv"] = q["cmd"] == "table" and r.random() < .5
        if q["cmd"] == "table":
            q["n"] = r.choice([0, 0, 5])
        a = line(r, q)
        par = r.choice(PARS)
        s.run(q, argv=a, par=par)
        rooms = [("bytes", 0), ("end", -1), ("end", 0), ("end", r.choice([1, 5000])), ("part", r.random()),
                 ("part", r.random()), ("end", -r.randint(2, 60)), ("bytes", r.choice([1, 4095, 4096, 4097, 8192]))]
        for room in r.sample(rooms, 5):
            s.strained(q, argv=a, par=par, room=room, errno=r.choice([28, 28, 5, 27, 122]))
    return s


# ---- C26 ----
TIDY = [["gc", "-q"], ["pack-refs", "--all"], ["repack", "-a", "-d", "-q"],
        ["commit-graph", "write", "--reachable", "--changed-paths"], ["repack", "-a", "-d", "-q", "--write-midx"],
        ["update-index", "--split-index"], ["update-index", "--index-version", "4"],
        ["config", "feature.manyFiles", "true"], ["config", "core.preloadIndex", "false"],
        ["config", "core.ignoreStat", "true"], ["config", "index.threads", "1"]]


ENVS = [dict(GIT_TRACE="1"), dict(LC_ALL="C"), dict(LC_ALL="", LANG=""), dict(NO_COLOR="1", TERM="dumb"), dict(TERM=""),
        dict(COLUMNS="20", LINES="3"), dict(GIT_DIFF_OPTS="-u0"), dict(GIT_EXTERNAL_DIFF="/bin/false"),
        dict(GIT_PAGER="false", PAGER="false"), dict(GIT_PAGER_IN_USE="1"), dict(GIT_CEILING_DIRECTORIES="/"),
        dict(GIT_NO_REPLACE_OBJECTS="1"), dict(GIT_NOTES_REF="refs/notes/none"), dict(GIT_EDITOR="false"),
        dict(GIT_AUTHOR_NAME="Nobody", GIT_AUTHOR_EMAIL="no@body", GIT_AUTHOR_DATE="@1 +0000"),
        dict(GIT_TRACE2="1"), dict(GIT_FLUSH="0"), dict(GIT_FLUSH="1"), dict(GOGC="1"), dict(GODEBUG="x=1"),
        dict(GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="log.showRoot", GIT_CONFIG_VALUE_0="false"),
        dict(GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="color.ui", GIT_CONFIG_VALUE_0="always"),
        dict(GIT_CONFIG_PARAMETERS="'log.decorate'='full' 'diff.relative'='true'")]


def _reached(r, s, g, n, layout=None, at=None, **kw):
    """Runs that reach the current repository in different ways"""
    for _ in range(n):
        q = rand_query(r, g, filt=.15, **dict(dict(revs=.15, cwd=.5, paths=.2), **kw))
        o = dict(par=r.choice(PARS))
        if r.random() < .35:
            o["env"] = r.choice(ENVS)
        if r.random() < .15:
            o["pwd"] = r.choice(["/", "/nonexistent", "relative", "", "."])
        x = r.random()
        if layout != "sub" and x < .2:
            o.update(env_dir=r.choice(["abs", "rel"]), env_tree=r.random() < .5)
        elif x < .4:
            o.update(alias=r.choice(["dir", "in"]))
        elif x < .6 and at is None:
            d = q["cwd"].split("/")[0]
            s.n_links = getattr(s, "n_links", 0) + 1
            name = r.choice(["ln%d", "l n%d", "lnk/%d"]) % s.n_links
            if "/" in name:
                name = name.replace("/", "-")
            if d and r.random() < .6:
                s.add("symlink", name=name, to=d)
                o.update(via=name, below=d + "/")
            else:
                s.add("symlink", name=name, to="")
                o.update(via=name)
        s.run(q, argv=line(r, q), **o)


def layouts(r):
    """Repositories laid out and reached in other ways than usual"""
    how = r.choice(["plain", "plain", "separate", "submodule", "space", "end", "odd"])
    name = {"submodule": "super/dep", "space": "my repo/é (1)", "end": " repo ", "odd": r.choice(ODDDIRS)}.get(how, "repo")
    s, g = repo(r, s=Scn(repo=name), n=r.randint(3, 16), merge=.15, subp=r.choice([0, .05]), linkp=r.choice([0, .05]))
    if how in ("separate", "submodule"):
        s.add("relayout", how=how)
    for _ in range(3):
        if r.random() < .5:
            s.add("sh", args=r.choice(TIDY))
        if r.random() < .3:
            es = rand_mailmap(r, g.authors)
            s.add("mailmap", repo=es, conf=None)
        if r.random() < .3:
            s.add("ignore", ids=r.sample([c["id"] for c in g.all], min(2, len(g.all))))
        _reached(r, s, g, 3)
        if r.random() < .4:
            new = g.grow(r.randint(1, 3))
            s.step(g.event(new))
    return s


def worktrees(r):
    """Working trees of one repository, each with its own HEAD and files"""
    s, g = repo(r, n=r.randint(4, 14), merge=.15)
    heads = [c["id"] for c in g.all]
    places = ["repo"]
    gens = {"repo": g}
    _reached(r, s, g, 2, at="repo")
    for k in range(r.randint(1, 3)):
        h = r.choice(heads)
        to = ["wt", "repo-wt", "a b/wt"][k]
        if places[-1] != "repo":
            s.add("switch", to="repo")
        s.add("worktree", to=to, head=h, bare=r.random() < .3)
        import copy
        gens[to] = copy.copy(g)
        gens[to].all = [c for c in g.all]
        places.append(to)
        for _ in range(2):
            if r.random() < .3:
                s.add("mailmap", repo=rand_mailmap(r, g.authors), conf=None, unset=False)
            if r.random() < .3:
                s.add("ignore", ids=r.sample(heads, min(2, len(heads))))
            _at(r, s, gens[to], h, 2)
            x = r.choice(places)
            if r.random() < .5:
                s.add("switch", to="repo")
                _at(r, s, g, g.head, 1)
                s.add("switch", to=to)
    return s


def _at(r, s, g, h, n):
    """Runs where HEAD is h"""
    for _ in range(n):
        q = rand_query(r, g, filt=.15, revs=.15)
        ds = dirs_of(sorted(g.trees[h]))
        if ds and r.random() < .4:
            q["cwd"] = r.choice(ds) + "/"
        if r.random() < .25:
            q["paths"] = rand_paths(r, g, q["cwd"])
        s.run(q, argv=line(r, q), par=r.choice(PARS), **(dict(alias=r.choice(["dir", "in"])) if r.random() < .3 else {}))


def shallow(r):
    """Clones that lack the older commits"""
    s, g = repo(r, n=r.randint(3, 20), merge=r.choice([.05, .3]), binp=.1, linkp=.05)
    if g.head != g.all[-1]["id"] or not g.all:
        return None
    s.add("shallow", to="shallow", depth=r.choice([1, 1, 2, 3, 5, 30]))
    # what the clone knows: only from its HEAD
    for _ in range(10):
        q = rand_query(r, g, revs=0, filt=.2, cwd=.3, paths=.3)
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


def retold(r):
    """The same commits, but git says something else about them than before"""
    subs = r.choice([0, 0, .25])
    g = gen.RepoGen(r, authors=gen.PLAIN, merge=r.choice([0, .15]), mvp=.2, linkp=0, subp=subs, binp=.05, delp=.1,
                    **(dict(paths=gen.PATHS[:r.randint(4, 9)] + ["sub", "lib/dep"]) if subs else {}))
    g.grow(r.randint(4, 18))
    g.join()
    s = Scn().step(g.event(list(g.all)))
    clone = not subs and r.random() < .3
    if clone:
        s.add("shallow", to="shallow", depth=r.choice([1, 2, 3]))
    instead, grafted, renames, off = {}, set(), True, ""
    sized = False
    hp = head_paths(g)
    kinds = ["deepen"] * 4 if clone else ["substitute", "substitute", "original", "settings"]
    kinds += ["attributes", "attributes", "settings", "none"] + (["mute"] * 4 if subs else [])
    links = sorted({o["p"] for c in g.all for o in c["ops"] if o["op"] == "sm"} |
                   {o["q"] for c in g.all for o in c["ops"] if o["op"] == "mv"} & set(hp))[:9]
    for _ in range(7):
        for _ in range(r.randint(1, 3)):
            q = rand_query(r, g, mode=r.choice(DIFF), revs=0 if clone or instead else .2, filt=.15, paths=.2, cwd=.15)
            a = line(r, q)
            x = s.run(q, argv=a, par=r.choice((2, 8)), shim=True)
            if r.random() < .3:
                s.same([x, s.run(dict(q, cache=False), argv=a, par=r.choice(PARS))])
        k = r.choice(kinds)
        if k == "deepen":
            s.add("deepen", of="repo", by=r.choice([1, 1, 2, 5, None]))
        elif k == "substitute" and not off:
            c = r.choice(g.all)
            if c["id"] in instead and r.random() < .6:
                s.add("substitute", c=c, undo=True, graft=c["id"] in grafted)
                del instead[c["id"]]
                grafted.discard(c["id"])
            elif c["id"] not in instead:
                an, ae = r.choice(gen.PLAIN)
                n = dict(c, an=an, ae=ae, at=c["at"] + r.choice([0, -5000, 9000]))
                # without its parents nothing else may hang below them
                cut = not any(len(x["par"]) > 1 for x in g.all) and r.random() < .5
                graft = cut and r.random() < .5
                if graft:
                    n = dict(c)
                    grafted.add(c["id"])
                s.add("substitute", c=n, rootless=cut, graft=graft)
                instead[c["id"]] = dict(n, rootless=cut)
        elif k == "original" and (off or instead and not grafted):
            # replaced commits do not count, for a while
            on, off = not off, off or r.choice(["env", "config"])
            s.add("original", how=off, on=on, back=[c if on else instead[c["id"]] for c in g.all if c["id"] in instead])
            off = off if on else ""
        elif k == "attributes":
            rules = []
            for _ in range(r.randint(0, 2)):
                p = r.choice(hp + ["gone.c"])
                how = r.choice(["path", "under", "ext"])
                t = p if how == "path" else p.split("/")[0] if how == "under" else "." + p.split("/")[-1].split(".")[-1]
                rules.append([how, t, r.choice(["-diff", "binary", "-diff -text"])])
            where = r.choice(["root", "root", "info", "index", "deep", "user", "named", "tree", "source"])
            ds = sorted({d for d in dirs_of(hp)})
            if where == "deep":
                rules = [["under", d, "-diff"] for d in r.sample(ds, min(len(ds), 1))]
                where = where if rules else "root"
            if r.random() < .3 and not subs and not renames:
                where, rules = "size", []       # (with renames it depends on what was looked at for them)
            sized = where == "size"
            s.add("attributes", where=where, rules=rules, empty=r.random() < .5)
        elif k == "mute":
            how = r.choice(["config", "file", "both"])
            s.add("mute", how=how, named=links,
                  paths=(["*"] if r.random() < .7 else []) if how == "config" else r.sample(links, r.randint(0, len(links))))
        elif k == "settings" and not sized:
            renames = r.random() < .5
            s.add("settings", set=[["diff.renames", r.choice(["true", "copies", None]) if renames else r.choice(["false", "0"])]],
                  renames=renames)
    return s


def unborn(r):
    """No commit yet, on this branch or at all; no working tree"""
    s, g = repo(r, n=r.randint(1, 6))
    s.add("orphan")
    for _ in range(6):
        q = rand_query(r, g, revs=.5, filt=.1)
        q["cwd"] = ""
        s.run(q, argv=line(r, q), par=r.choice(PARS))
    if r.random() < .5:
        s.add("sh", args=["clone", "-q", "--bare", ".", "../naked.git"])
        at = "naked.git"
    else:
        at = "repo/.git"
    q = m.query(cmd=r.choice(["table", "tree", "hist"]), norepo=True)
    s.run(q, argv=m.argv(q), at=at, par=r.choice(PARS))
    return s


# ---- every crash point, every switch ----
CRASH_OPS, SWITCH_OPS = 16, 28


def _slice(items, name, i, k):
    """The i-th k of the items, in an order that mixes them"""
    items = list(items)
    random.Random(name).shuffle(items)
    return [items[(i * k + j) % len(items)] for j in range(k)]


def every_crash(r, i=0):
    """A run stopped at each of its file operations, with nothing, something or
    everything in the cache; the runs after it"""
    s, g = repo(r, n=r.randint(3, 10), merge=.1)
    qs = [rand_query(r, g, cmd="table", mode=mode, revs=0, filt=0, paths=0) for mode in DIFF]
    for q in qs:
        q["revs"] = []
    how = ["crash %d", "torn %d 1", "torn %d 4", "torn %d 30", "fail %d 28", "failfrom %d 5"]
    todo = [(k, h, start) for k in range(CRASH_OPS) for h in how for start in ("cold", "warm", "grown")]
    for k, h, start in _slice(todo, "crash", i, 6):
        s.step(dict(ev="damage", how="remove", seed=1))
        a = r.choice(qs)
        if start != "cold":
            s.run(a, argv=line(r, a), par=8)
        if start == "grown":
            s.step(g.event(list(g.grow(r.randint(1, 2)))))
        s.run(a, argv=line(r, a), par=r.choice((2, 8)), fs=[h % k], fate="killed?")
        if r.random() < .3:
            s.run(a, argv=line(r, a), par=8, fs=["crash %d" % r.randrange(CRASH_OPS)], fate="killed?")
        for _ in range(2):
            b = r.choice(qs)
            s.run(b, argv=line(r, b), par=r.choice((2, 8)), shim=True)
    return s


def every_switch(r, i=0):
    """Two runs, the second let in after k operations of the first and the
    first again after l of the second"""
    s, g = repo(r, n=r.randint(3, 8), merge=.1)
    todo = [(k, l, start) for k in range(SWITCH_OPS) for l in range(1, SWITCH_OPS) for start in ("cold", "warm", "part")]
    qs = [rand_query(r, g, cmd=r.choice(["table", "tree"]), mode=r.choice(DIFF), revs=0, filt=0, paths=.2) for _ in range(2)]
    qs[0]["revs"], qs[1]["revs"] = [], r.choice([[], [], [m.ref(g.head)]])
    for k, l, start in _slice(todo, "switch", i, 8):
        s.step(dict(ev="damage", how="remove", seed=1))
        if start != "cold":
            s.run(qs[0], argv=line(r, qs[0]), par=8)
        if start == "part":
            s.step(g.event(list(g.grow(r.randint(1, 2)))))
        runs = [dict(q=q, argv=line(r, q), par=r.choice((2, 8))) for q in qs]
        s.overlap(runs, schedule="A" * k + "B" * l + "A" * 60 + "B" * 60, reads=True)
        for q in qs:
            s.run(q, argv=line(r, q), par=r.choice((2, 8)))
    return s


# ---- behaviours TLC enumerates ----
def small_worlds(r, i=0):
    """Repositories of the exhaustive model, many in one, each looked at in several ways"""
    from . import models
    worlds = models.small_worlds()
    s, at, first = Scn(), 0, True
    for w in r.sample(worlds, 12):
        new = []
        for c in w:
            ops = [dict(o, k=o["k"] + at) if o["op"] == "tk" else o for o in c["ops"]]
            new.append(m.commit(c["id"] + at, [p + at for p in c["par"]], c["an"], c["ae"], c["at"],
                                c["ct"], ops))
        tip = new[-1]["id"] if len(new) == 1 or len(new[-1]["par"]) > 1 else None
        if tip is None:
            used = {p for c in new for p in c["par"]}
            tip = [c["id"] for c in new if c["id"] not in used][0]
        s.add("commits", new=new, head=tip, refs={})
        ids = [c["id"] for c in new]
        at += len(new)
        if r.random() < .2:
            s.add("ignore", ids=r.choice([None, [r.choice(ids)]]))
        for _ in range(5):
            cmd = r.choice(("table", "table", "tree", "hist"))
            q = m.query(cmd=cmd, mode=r.choice(modes_of(cmd)), email=r.random() < .3,
                        merges=r.random() < .4, csv=r.random() < .7, n=r.choice([0, 0, 0, 1]),
                        all=r.random() < .3 and cmd == "tree", d=r.choice([0, 0, 1]) if cmd == "tree" else 0)
            k, a, b = r.random(), r.choice(ids), r.choice(ids)
            if cmd != "table":
                q["csv"], q["n"] = True, 0
            if k < .1:
                q["revs"] = [m.ref(a)]
            elif k < .25:
                q["revs"] = [r.choice([m.rng, m.sym])(a, b)]
            elif k < .35:
                q["revs"] = [m.ref(a), r.choice([m.ref, m.neg])(b)]
            k = r.random()
            if k < .35:
                q["paths"] = r.choice([[m.path("a")], [m.path("b")], [m.path("b/c")], [m.path("a", True)],
                                       [m.path("b", True)], [m.path("a"), m.path("b/c")], [m.path("*c")]])
            k = r.random()
            if k < .1:
                q["au" if k < .05 else "nau"] = [r.choice(["Ann", "<bob", "y>$"])]
            elif k < .2:
                # git stops looking where dates run backwards
                mono = all(c["ct"] > x["ct"] for c in new for x in new if x["id"] in c["par"])
                q["since" if k < .15 and mono else "until"] = r.choice(new)["ct"] + r.choice([-1, 0, 1])
            s.run(q, argv=line(r, q), par=r.choice(PARS))
    return s


ARGNAMES = {"HEAD": 5, "main": 5, "HEAD~1": 3, "v1": 2, "dev": 4, "{s:2}": 2, "{h:1}": 1,
            "refs/tags/v1": 2, "both/x": 3, "@": 5}
ARGFILES = ["a.txt", "src", "src/", "src/x.c", "v1", "dev.txt", "both", "both/x", ".", "sp ace", "HEAD"]
ARGDATES = {"@1600100000": 1600100000, "2020-09-15T00:00:00Z": 1600128000, "": -1}


def arg_world():
    """The repository ArgsModel talks about"""
    d = 86400 // 2
    t = 1600000000
    c = [m.commit(1, [], "Ann", "ann@x", t, ops=[m.w("a.txt", 3), m.w("src/x.c", 2), m.w("gone", 1)]),
         m.commit(2, [1], "Bob", "bob-qa@x", t + d, ops=[m.w("src/x.c", 4, 1), m.w("sp ace", 2)]),
         m.commit(3, [2], "Ann", "ann@y", t + 3 * d, ops=[m.w("v1", 1), m.w("both/x", 2), m.delete("gone")]),
         m.commit(4, [2], "Cy", "cy@x", t + 4 * d, ops=[m.w("dev.txt", 5), m.w("a.txt", 1)]),
         m.commit(5, [3, 4], "Bob", "bob-qa@x", t + 5 * d, ops=[m.take("dev.txt", 4), m.take("a.txt", 4), m.w("HEAD", 1)])]
    return dict(ev="commits", new=c, head=5,
                refs={"refs/tags/v1": 2, "refs/heads/dev": 4, "refs/heads/both/x": 3})


def arg_lines(r, i):
    """Command lines the model of them generates"""
    from . import models
    s = Scn().step(arg_world())
    lines = models.lines()
    for x in lines[i * 120 % len(lines):][:120]:
        s.run(m.query(cmd="args", mode="args"), args=x["argv"], names=ARGNAMES, files=ARGFILES,
              dates=ARGDATES, par=r.choice(PARS))
    return s
