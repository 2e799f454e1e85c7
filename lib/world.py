"""Realises the abstract repository of a scenario with git fast-import."""
import hashlib, os, subprocess, shutil

GIT = shutil.which("git")


def hermetic(home, **kw):
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": home,
           "LC_ALL": "C.UTF-8", "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1",
           "XDG_CACHE_HOME": os.path.join(home, "cache"), "TZ": "UTC",
           "GIT_TERMINAL_PROMPT": "0", "GIT_OPTIONAL_LOCKS": "0"}
    env.update({k: v for k, v in kw.items() if v is not None})
    return env


def b(s):
    return s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s


def cquote(p):
    out = b'"'
    for ch in b(p):
        if ch in (0x22, 0x5c):
            out += b"\\" + bytes([ch])
        elif ch < 32 or ch > 126:
            out += b"\\%03o" % ch
        else:
            out += bytes([ch])
    return out + b'"'


class Repo:
    def __init__(self, root, home, config=(), existing=False, format=None):
        self.root, self.home = root, home
        self.format = format or "sha1"
        self.env = hermetic(home)
        os.makedirs(root, exist_ok=True)
        os.makedirs(home, exist_ok=True)
        if not existing:
            self.git("init", "-q", "--template=", "-b", "main", "--object-format=" + self.format)
        for k, v in config:
            self.git("config", k, v)
        self.hash = {}      # id -> hash
        self.ids = {}       # hash -> id
        self.tree = {0: {}}  # id -> {path: (mode, content)}
        self.head = 0
        self.keep_trees = True

    def git(self, *a, input=None, check=True):
        p = subprocess.run([GIT, *a], cwd=self.root, env=self.env, input=input,
                           capture_output=True)
        if check and p.returncode != 0:
            raise RuntimeError("git %s: %s" % (a, p.stderr.decode("utf-8", "replace")))
        return p.stdout

    def _content(self, tree, c, k, o):
        """New (mode, content) for one edit"""
        def fresh(n):
            return [b"%d.%d.%d\n" % (c["id"], k, j) for j in range(n)]
        op = o["op"]
        if op == "ln":
            return ("120000", b"to/%d.%d" % (c["id"], k))
        if op == "sm":
            return ("160000", hashlib.new(self.format, b"%d.%d" % (c["id"], k)).hexdigest().encode())
        if op in "wb":
            old = tree.get(o["p"])
            if old and old[0] in ("120000", "160000"):
                tree = {}
        if op == "w":
            old = tree.get(o["p"])
            if o.get("blank"):
                return ("100644", b"\n" * o["a"])
            if old is None or b"\0" in old[1]:
                return (old[0] if old else "100644", b"".join(fresh(o["a"])))
            lines = old[1].splitlines(True)
            assert len(lines) >= o["r"], (c["id"], o, len(lines))
            return (old[0], b"".join(lines[o["r"]:] + fresh(o["a"])))
        if op == "b":
            old = tree.get(o["p"])
            return (old[0] if old else "100644", b"\0\1bin %d.%d\n" % (c["id"], k) * 3)
        if op == "x":
            old = tree[o["p"]]
            return ("100755" if old[0] == "100644" else "100644", old[1])
        if op == "mv":
            old = tree[o["p"]]
            lines = old[1].splitlines(True)
            if o["a"] or o["r"]:
                lines = lines[o["r"]:] + fresh(o["a"])
            return (old[0], b"".join(lines))
        raise ValueError(op)

    def commit(self, new, head, refs=None):
        s = []
        for c in new:
            par = c["par"]
            tree = dict(self.tree[par[0]]) if par else {}
            body = []
            for k, o in enumerate(c["ops"], 1):
                if o["op"] == "d":
                    del tree[o["p"]]
                    body.append(b"D " + cquote(o["p"]) + b"\n")
                    continue
                if o["op"] == "tk":
                    v = self.tree[o["k"]].get(o["p"])
                    if v is None:
                        tree.pop(o["p"], None)
                        body.append(b"D " + cquote(o["p"]) + b"\n")
                        continue
                    tree[o["p"]] = v
                    p = o["p"]
                elif o["op"] == "mv":
                    v = self._content(tree, c, k, o)
                    del tree[o["p"]]
                    body.append(b"D " + cquote(o["p"]) + b"\n")
                    p = o["q"]
                    tree[p] = v
                else:
                    v = self._content(tree, c, k, o)
                    p = o["p"]
                    tree[p] = v
                if v[0] == "160000":
                    body.append(b"M 160000 %s %s\n" % (v[1], cquote(p)))
                    continue
                body.append(b"M %s inline %s\ndata %d\n" % (v[0].encode(), cquote(p), len(v[1]))
                            + v[1] + b"\n")
            self.tree[c["id"]] = tree
            nm = b(c.get("rawan", c["an"]))
            s.append(b"commit refs/verif/tmp\nmark :%d\n" % c["id"])
            s.append(b"author " + (nm + b" " if nm else b"") + b"<" + b(c["ae"]) + b"> %d %s\n"
                     % (c["at"], c["atz"].encode()))
            s.append(b"committer C <c@committer> %d %s\n" % (c["ct"], c["ctz"].encode()))
            if c.get("enc"):
                s.append(b"encoding " + c["enc"].encode() + b"\n")
            msg = b(c.get("msg") or "c%d" % c["id"])
            s.append(b"data %d\n" % len(msg) + msg + b"\n")
            for j, p in enumerate(par):
                if j == 0 and p in self.hash:
                    s.append(b"from " + self.hash[p].encode() + b"\n")
                elif j == 0:
                    s.append(b"from :%d\n" % p)
                else:
                    ref = self.hash[p].encode() if p in self.hash else b":%d" % p
                    s.append(b"merge " + ref + b"\n")
            s.extend(body)
            s.append(b"\n")
            s.append(b"reset refs/verif/tmp\n\n")
        if new:
            marks = os.path.join(self.home, "marks")
            subprocess.run([GIT, "fast-import", "--quiet", "--export-marks=" + marks, "--force",
                            "--done"],
                           cwd=self.root, env=self.env, input=b"".join(s) + b"done\n", check=True,
                           capture_output=True)
            with open(marks) as f:
                for line in f:
                    m, h = line.split()
                    if len(h) in (40, 64):
                        self.hash[int(m[1:])] = h
                        self.ids[h] = int(m[1:])
            os.unlink(marks)
        cmds = []
        for name, i in (refs or {}).items():
            cmds.append("update %s %s" % (name, self.hash[i]))
        if cmds:
            self.git("update-ref", "--stdin", input="".join(x + "\n" for x in cmds).encode())
        if head:
            self.git("update-ref", "HEAD", self.hash[head])
            self.git("reset", "-q", "--hard")
        self.head = head

    def text(self, s):
        """Fills in hashes: {h:3} full, {s:3} abbreviated"""
        out, i = "", 0
        while True:
            j = s.find("{", i)
            if j < 0 or s[j + 1:j + 3] not in ("h:", "s:"):
                if j < 0:
                    return out + s[i:]
                out += s[i:j + 1]
                i = j + 1
                continue
            k = s.index("}", j)
            h = self.hash[int(s[j + 3:k])]
            out += s[i:j] + (h if s[j + 1] == "h" else h[:10])
            i = k + 1

    def mailmap_text(self, entries):
        out = []
        for e in entries:
            if e.get("raw") is not None:
                out.append(e["raw"])
                continue
            t = (e["nn"] + " " if e["nn"] else "")
            if e["ne"]:
                t += "<" + e["ne"] + ">"
                t += (" " + e["on"] if e["on"] else "") + " <" + e["oe"] + ">"
            else:
                t += (e["on"] + " " if e["on"] else "") + "<" + e["oe"] + ">"
            out.append(t)
        return "".join(x + "\n" for x in out)
