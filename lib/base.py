"""Paths, scratch space, building git-who and the native helpers."""
import atexit, os, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")   # override: development only
SPEC = os.path.join(VERIF, "spec")
NATIVE = os.path.join(VERIF, "native")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 1)
GODIR = "/opt/veriftools/go1.27.3/bin"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = None


def scratch():
    """One private scratch directory per check, removed at exit."""
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="gwv-", dir=base)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and not os.environ.get("VERIF_KEEP"):
                subprocess.run(["chmod", "-R", "u+rwx", _scratch], stderr=subprocess.DEVNULL)
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def go_env():
    env = dict(os.environ)
    env["PATH"] = GODIR + ":" + env.get("PATH", "")
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    for k in ("GOWORK", "GOOS", "GOARCH"):
        env.pop(k, None)
    cache = os.environ.get("GOCACHE", "/root/.cache/go-build")
    if not os.access(os.path.dirname(cache), os.W_OK):
        cache = os.path.join(scratch(), "gocache")
    env["GOCACHE"] = cache
    env.setdefault("HOME", "/root")
    return env


class BuildError(Exception):
    pass


_built = {}
_lock = threading.Lock()


def git_who(race=False):
    """Builds git-who from the working tree of /repo."""
    with _lock:
        key = "race" if race else "plain"
        if key not in _built:
            out = os.path.join(scratch(), "git-who-" + key)
            cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
            p = subprocess.run(cmd, cwd=REPO, env=go_env(), capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("go build failed:\n" + p.stdout + p.stderr)
            _built[key] = out
        return _built[key]


def native(name, libs=()):
    """Compiles native/<name>.c."""
    with _lock:
        if name not in _built:
            out = os.path.join(scratch(), name)
            p = subprocess.run(["gcc", "-O1", "-Wall", "-o", out,
                                os.path.join(NATIVE, name + ".c"), *libs],
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("gcc failed:\n" + p.stderr)
            _built[name] = out
        return _built[name]


def log(*a):
    print(*a, file=sys.stderr, flush=True)
