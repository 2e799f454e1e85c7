"""Random abstract repositories and queries."""
import glob, os, random, re
from . import base, model as m

T0 = 1500000000
PLAIN = [("Alice", "alice@x"), ("Bob", "bob@x"), ("Carol", "carol@y"), ("Dave", "dave@z"),
         ("Eve Adams", "eve@x"), ("Build", "build-qa@x")]
SHARED = [("Alice", "alice@x"), ("Alice", "alice@home"), ("Alice L.", "alice@x"),
          ("bob", "bob@x"), ("Bob", "bob@x"), ("Zed", "bob@x"), ("Carol", "carol@y")]
WEIRD = [("Ål Ñandú", "al@x"), ("漢字 太郎", "taro@jp"), ("O'Brien, \"Pat\"", "pat@x"),
         ("a,b;c", "semi@x"), ("D e", "d@x"), ("Éve", "eve@x"),
         ("x" * 40, "long@x"), ("", "anon@x"), ("No Mail", ""), ("𝔘ni 🎉", "emoji@x")]
NOBODY = [("", "")]
PATHS = ["a.txt", "b.txt", "README", "src/main.c", "src/util.c", "src/lib/one.c", "src/lib/two.h",
         "docs/guide.md", "docs/deep/er/x.md", "tools/run.sh", "z"]
ODDPATHS = ["with space.txt", "tab\there", "quote\"d", "back\\slash", "br{a,c}e", "arrow => x",
            "d{x => y}/f", "naïve/ñ.txt", "漢字/ファイル.c", "-dash", "sub dir/-l", "a" * 40,
            "0123456789abcdef0123456789abcdef01234567", "{a => b}", "dots...x/..y", "star*x",
            "que?y", "[b]r", "#hash", "~tilde", "colon:x", "😀.txt", "HEAD", "main",
            "dead/" + "f" * 40]


def words():
    """Names that the program under test itself knows: a file, an author may have them, too"""
    found = set()
    for src in glob.glob(os.path.join(base.REPO, "**", "*.go"), recursive=True):
        if not src.endswith("_test.go"):
            for ln in open(src, errors="replace"):
                found |= set(re.findall(r'["`]([!-~]{1,60}?)["`]', ln))
    known = {".git", "..", ".", ""}
    special = {".mailmap", ".gitattributes", ".gitmodules", ".gitignore", ".git-blame-ignore-revs"}
    return sorted(w for w in found if not set(w) & set('\\%"`') and not set(w.split("/")) & known
                  and w not in special and not w.lower().startswith(".git/"))


def clash(tree, p):
    """What in the tree has to go before p can be there"""
    return [x for x in tree if x.startswith(p + "/") or p.startswith(x + "/")]


class RepoGen:
    def __init__(self, rng, authors=PLAIN, paths=PATHS, merge=0.15, octopus=0.2, empty=0.05,
                 binp=0.06, mvp=0.06, delp=0.06, chmodp=0.04, future=0.0, nobody=0.0,
                 t0=None, step=(0, 5 * 86400), jitter=86400, tie=0.1, width=3, big=30,
                 mv_filter=None, evil=0.3, ops=(1, 3), tzs=("+0000", "-0800", "+0530"), skew=False,
                 mono_author=False, ids_from=1, cut=True, linkp=0.0, subp=0.0):
        self.__dict__.update(locals())
        self.trees = {0: {}}       # id -> {path: [lines, bin ("link": a link or submodule)]}
        self.t = t0 if t0 is not None else T0 + rng.randrange(0, 40000000)
        self.all = []
        self.next = ids_from
        self.tips = []
        self.ct = {}
        self.at = None

    def author(self):
        r = self.rng
        if r.random() < self.nobody:
            return r.choice(NOBODY)
        return r.choice(self.authors)

    def edits(self, tree, n):
        """n random edits of distinct paths; changes tree"""
        r, out, used = self.rng, [], set()
        for _ in range(n):
            x = r.random()
            have = [p for p in tree if p not in used]
            text = [p for p in have if not tree[p][1]]
            if have and x < self.delp and len(tree) > 1:
                p = r.choice(have)
                out.append(m.delete(p))
                del tree[p]
                used.add(p)
                continue
            x -= self.delp
            plain = [p for p in have if tree[p][1] != "link"]
            if plain and x < self.chmodp:
                p = r.choice(plain)
                out.append(m.chmod(p))
                used.add(p)
                continue
            x -= self.chmodp
            if x < self.mvp:
                c = [p for p in text if tree[p][0] >= 8]
                q = r.choice(self.paths)
                p = r.choice(c) if c else None
                if c and q not in tree and q not in used and set(clash(tree, q)) <= {p}:
                    if self.mv_filter is None or self.mv_filter(p, q):
                        a, d = r.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)])
                        out.append(m.move(p, q, a, d))
                        t = tree.pop(p)
                        tree[q] = [t[0] + a - d, False]
                        used.update((p, q))
                        continue
            x -= self.mvp
            free = [p for p in self.paths if p not in used]
            if not free:
                break
            p = r.choice(free)
            gone = clash(tree, p)
            if set(gone) & used:
                continue
            for y in gone:      # a file becomes a directory, or the other way round
                out.append(m.delete(y))
                del tree[y]
            used.update(gone, [p])
            if 0 <= x < self.binp:
                out.append(m.binary(p))
                tree[p] = [0, True]
                continue
            x -= self.binp
            if 0 <= x < self.linkp + self.subp:
                out.append(m.link(p, sub=x >= self.linkp))
                tree[p] = [1, "link"]
                continue
            if tree.get(p, [0, 0])[1] == "link" and r.random() < .3:
                q = r.choice(self.paths)
                if q not in tree and q not in used and not clash(tree, q):
                    out.append(m.move(p, q))
                    tree[q] = tree.pop(p)
                    used.add(q)
                    continue
            old = tree.get(p)
            a = r.choice([1, 1, 2, 3, 5, r.randrange(1, self.big + 1)])
            d = 0
            if old and not old[1] and r.random() < 0.6:
                d = r.randrange(0, old[0] + 1)
                if d and self.cut and d < old[0] and r.random() < 0.25:
                    a = 0
            out.append(m.w(p, a, d))
            if old and not old[1]:
                tree[p] = [old[0] + a - d, False]
            else:
                tree[p] = [a, False]
        return out

    def add(self, par, an=None, ae=None, at=None, ct=None, ops=None, **kw):
        """One commit; random where not given"""
        r = self.rng
        base = dict((p, list(v)) for p, v in self.trees[par[0] if par else 0].items())
        if ops is None:
            ops = []
            if len(par) > 1:
                touched = set()
                for k in par[1:]:
                    other = self.trees[k]
                    for p in sorted(set(base) | set(other)):
                        if p in touched or base.get(p) == other.get(p):
                            continue
                        y = r.random()
                        if y < 0.45 and not (p in other and clash(base, p)):
                            ops.append(m.take(p, k))
                            touched.add(p)
                            if p in other:
                                base[p] = list(other[p])
                            else:
                                base.pop(p, None)
                if r.random() < self.evil:
                    free = [p for p in self.paths if p not in touched and not clash(base, p)]
                    if free:
                        p = r.choice(free)
                        ops.append(m.w(p, 2, 0))
                        o = base.get(p)
                        base[p] = [o[0] + 2, False] if o and not o[1] else [2, False]
            elif r.random() >= self.empty:
                ops = self.edits(base, r.randint(*self.ops))
        else:
            self.apply(base, ops)
        if r.random() >= self.tie:
            self.t += r.randint(*self.step)
        if an is None:
            an, ae = self.author()
        if ct is None:
            ct = self.t
            if self.skew and r.random() < 0.3:
                ct -= r.randint(0, 20 * 86400)
        if at is None:
            at = self.t if self.mono_author else max(0, self.t - r.choice([0, 0, r.randint(0, self.jitter)]))
            if r.random() < self.future:
                at = 2100000000 + r.randrange(1000)
        i = self.next
        self.next += 1
        c = m.commit(i, par, an, ae, at, ct, ops, atz=r.choice(self.tzs))
        c.update(kw)
        self.trees[i] = base
        self.ct[i] = ct
        self.all.append(c)
        self.tips = [t for t in self.tips if t not in par] + [i]
        return c

    def apply(self, base, ops):
        for o in ops:
            if o["op"] == "w":
                x = base.get(o["p"])
                base[o["p"]] = [x[0] + o["a"] - o["r"], False] if x and not x[1] else [o["a"], False]
            elif o["op"] == "b":
                base[o["p"]] = [0, True]
            elif o["op"] in ("ln", "sm"):
                base[o["p"]] = [1, "link"]
            elif o["op"] == "d":
                del base[o["p"]]
            elif o["op"] == "mv":
                x = base.pop(o["p"])
                base[o["q"]] = [x[0] + o["a"] - o["r"], x[1]]
            elif o["op"] == "tk":
                x = self.trees[o["k"]].get(o["p"])
                if x is None:
                    base.pop(o["p"], None)
                else:
                    base[o["p"]] = list(x)

    def grow(self, n):
        """n more random commits; returns them"""
        r = self.rng
        start = len(self.all)
        for _ in range(n):
            if not self.tips:
                self.add([])
                continue
            x = r.random()
            if len(self.tips) > 1 and x < self.merge * (3 if len(self.tips) >= self.width else 1):
                k = 3 if len(self.tips) > 2 and r.random() < self.octopus else 2
                self.add(r.sample(self.tips, k))
            elif x > 1 - self.merge and len(self.tips) < self.width and len(self.all) > 1:
                self.add([r.choice(self.all)["id"]])
            else:
                self.add([r.choice(self.tips)])
        return self.all[start:]

    def join(self):
        """Merge all tips; returns the new commits"""
        start = len(self.all)
        while len(self.tips) > 1:
            k = min(len(self.tips), 3 if self.rng.random() < self.octopus else 2)
            self.add(self.rng.sample(self.tips, k))
        return self.all[start:]

    def linear(self, n):
        start = len(self.all)
        for _ in range(n):
            self.add([self.all[-1]["id"]] if self.all else [])
        return self.all[start:]

    @property
    def head(self):
        return self.all[-1]["id"]

    def event(self, new, refs=None, head=None):
        self.at = head      # checked out, if not the newest commit
        return dict(ev="commits", new=new, head=head if head is not None else self.head,
                    refs=refs or {})


def rand_revs(r, g, names=None):
    """Random revision arguments"""
    ids = [c["id"] for c in g.all]
    nm = lambda i: r.choice(["{h:%d}" % i, "{s:%d}" % i] + (names or {}).get(i, []))
    k = r.random()
    a, b = r.choice(ids), r.choice(ids)
    if k < 0.25:
        return [m.ref(a, nm(a))]
    if k < 0.5:
        return [m.rng(a, b, nm(a), nm(b))]
    if k < 0.65:
        return [m.sym(a, b, nm(a), nm(b))]
    if k < 0.8:
        return [m.ref(a, nm(a)), m.ref(b, nm(b))]
    c = r.choice(ids)
    return r.sample([m.ref(a, nm(a)), m.neg(b, nm(b)), m.ref(c, nm(c))], 3)
