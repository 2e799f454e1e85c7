"""Scenario data: plain records that both the executor and the TLA+ trace
checker understand (see spec/History.tla, spec/GitWho.tla)."""


def commit(id, par, an, ae, at, ct=None, ops=(), atz="+0000", ctz="+0000"):
    return dict(id=id, par=list(par), an=an, ae=ae, at=at, ct=at if ct is None else ct,
                ops=list(ops), atz=atz, ctz=ctz)


def w(p, a, r=0):
    return dict(op="w", p=p, a=a, r=r)


def binary(p):
    return dict(op="b", p=p)


def chmod(p):
    return dict(op="x", p=p)


def link(p, sub=False):
    return dict(op="sm" if sub else "ln", p=p)


def delete(p):
    return dict(op="d", p=p)


def move(p, q, a=0, r=0):
    return dict(op="mv", p=p, q=q, a=a, r=r)


def take(p, k):
    return dict(op="tk", p=p, k=k)


def entry(nn="", ne="", on="", oe=""):
    return dict(nn=nn, ne=ne, on=on, oe=oe)


def query(**kw):
    q = dict(cmd="table", mode="commits", email=False, merges=False, csv=True, n=0, d=0,
             all=False, revs=[], paths=[], cwd="", since=-1, until=-1, au=[], nau=[],
             sorts=1, badflag=False, norepo=False, tz="UTC", cache=True)
    for k in kw:
        assert k in q, k
    q.update(kw)
    return q


def ref(a, name=None):
    return dict(k="ref", a=a, b=0, t=name or "{h:%d}" % a)


def neg(a, name=None):
    return dict(k="neg", a=a, b=0, t="^" + (name or "{h:%d}" % a))


def rng(a, b, na=None, nb=None):
    return dict(k="range", a=a, b=b,
                t=(na or "{h:%d}" % a) + ".." + (nb or "{h:%d}" % b))


def sym(a, b, na=None, nb=None):
    return dict(k="sym", a=a, b=b,
                t=(na or "{h:%d}" % a) + "..." + (nb or "{h:%d}" % b))


def path(s, x=False, t=None, m="ok"):
    """t: the text on the command line"""
    return dict(s=s, x=x, m=m, t=t if t is not None else ((":!" if x else "") + s))


MODE_FLAG = {"commits": [], "lines": ["-l"], "files": ["-f"], "last": ["-m"], "first": ["-c"]}


def date_text(t, style=0):
    import time
    if style == 1:
        return time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(t))
    if style == 2:
        return "@%d" % t if t > 100000000 else time.strftime("%Y-%m-%d %H:%M:%S +0000", time.gmtime(t))
    return time.strftime("%Y-%m-%d %H:%M:%S +0000", time.gmtime(t))


def argv(q, sep=None, named=True, short=False, order=None, style=0):
    """Command line for a query.  sep: write `--` (default: when there are paths)."""
    a = []
    if named or q["cmd"] != "table":
        a.append(q["cmd"])
    flags = []
    flags += [MODE_FLAG[q["mode"]]] if MODE_FLAG[q["mode"]] else []
    if q["email"]:
        flags.append(["-e"])
    if q["merges"]:
        flags.append(["--merges"])
    if q["cmd"] == "table":
        if q["csv"]:
            flags.append(["--csv"])
        if q["n"] != 10:
            flags.append(["-n", str(q["n"])])
    if q["cmd"] == "tree":
        if q["d"]:
            flags.append(["-d", str(q["d"])])
        if q["all"]:
            flags.append(["-a"])
    if q["since"] != -1:
        flags.append(["--since", date_text(q["since"], style)])
    if q["until"] != -1:
        flags.append(["--until", date_text(q["until"], style)])
    for x in q["au"]:
        flags.append(["--author", x])
    for x in q["nau"]:
        flags.append(["--nauthor", x])
    if order is not None:
        order.shuffle(flags)
    for f in flags:
        a += f
    a += [r["t"] for r in q["revs"]]
    if sep is None:
        sep = bool(q["paths"])
    if sep:
        a.append("--")
    a += [p["t"] for p in q["paths"]]
    return a
