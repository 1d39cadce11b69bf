"""Compile /repo's current working tree with the fact driver and load the facts (cached by content)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LB_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATES = {"lib": "lib-limabean.json", "launcher": "bin-limabean.json", "pod": "bin-limabean_pod.json",
          "launcher-uberjar": os.path.join("uberjar", "bin-limabean.json")}
DEEP = "limabean_booking"     # the library whose bodies are followed as well in lib-deep
UBERJAR = "/lb/uberjar/configured/at/build/time.jar"


class CannotDecide(Exception):
    """the analysis has no answer (source does not compile, driver missing ...)"""


def _files(root, sub):
    out = []
    for d, dirs, fs in os.walk(os.path.join(root, sub)):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def key():
    h = hashlib.sha256()
    for f in _files(REPO, "rust") + _files(VERIF, "driver/src"):
        h.update(os.path.relpath(f, "/").encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
    return h.hexdigest()[:24]


def _env(**kw):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "LIMABEAN_UBERJAR", "LBFACTS_DEEP"):
        e.pop(k, None)
    e.update(kw)
    return e


def build_driver():
    exe = os.path.join(BUILD, "driver/release/lbfacts")
    src = max(os.path.getmtime(f) for f in _files(VERIF, "driver/src"))
    if os.path.exists(exe) and os.path.getmtime(exe) >= src:
        return exe
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "driver"),
                       env=_env(CARGO_TARGET_DIR=os.path.join(BUILD, "driver")), capture_output=True, text=True)
    if r.returncode:
        raise CannotDecide("driver does not build:\n" + r.stderr[-3000:])
    return exe


def ensure():
    """returns the directory with facts of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        k = key()
        out = os.path.join(BUILD, "facts", k)
        if all(os.path.exists(os.path.join(out, f)) for f in CRATES.values()):
            return out
        tmp = os.path.join(BUILD, "facts", "tmp-%d" % os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(BUILD, "check")
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        # once as it is, and the launcher once more as it is built for a package with a standalone application
        for args, dst, kw in (([], tmp, {}), (["--bin", "limabean"], os.path.join(tmp, "uberjar"), {"LIMABEAN_UBERJAR": UBERJAR})):
            os.makedirs(dst, exist_ok=True)
            # the fact driver must run again for the workspace's own crates
            for base in ("debug/.fingerprint", "debug/build"):
                fp = os.path.join(tgt, base)
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d == "limabean" or (d.startswith("limabean-") and "booking" not in d):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--locked"] + args, cwd=os.path.join(REPO, "rust"),
                               env=_env(LBFACTS_OUT=dst, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe,
                                        LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), **kw), capture_output=True, text=True)
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                raise CannotDecide("the tree does not compile:\n" + r.stderr[-3000:])
        missing = [f for f in CRATES.values() if not os.path.exists(os.path.join(tmp, f))]
        if missing:
            shutil.rmtree(tmp, ignore_errors=True)
            raise CannotDecide("no facts for " + ", ".join(missing))
        # keep only a few cached trees
        base = os.path.join(BUILD, "facts")
        old = sorted((d for d in os.listdir(base) if len(d) == 24), key=lambda d: os.path.getmtime(os.path.join(base, d)))
        for d in old[:-6]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
        return out


def ensure_deep():
    """facts of the library together with the functions of the booking library that it uses (dependencies compiled so that their bodies are known)"""
    ensure()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        out = os.path.join(BUILD, "deep", key())
        res = os.path.join(out, "lib-limabean.json")
        if os.path.exists(res):
            return res
        shutil.rmtree(os.path.join(BUILD, "deep"), ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, "check-deep")
        for base in ("debug/.fingerprint", "debug/build"):
            fp = os.path.join(tgt, base)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d == "limabean" or (d.startswith("limabean-") and "booking" not in d):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--locked", "--lib"], cwd=os.path.join(REPO, "rust"),
                           env=_env(LBFACTS_OUT=out, LBFACTS_DEEP=DEEP, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe, RUSTFLAGS="-Zalways-encode-mir",
                                    LD_LIBRARY_PATH=os.path.join(sysroot, "lib")), capture_output=True, text=True)
        if r.returncode or not os.path.exists(res):
            shutil.rmtree(out, ignore_errors=True)
            raise CannotDecide("the tree does not compile:\n" + r.stderr[-3000:])
        return res


def last_key():
    return key()


_progs = {}


def program(name):
    from engine.interp import Program
    from lb import canon
    if name not in _progs:
        d = json.load(open(ensure_deep() if name == "lib-deep" else os.path.join(ensure(), CRATES[name])))
        _progs[name] = Program(canon.canonical(d) if name.startswith("lib") else d)
    return _progs[name]


if __name__ == "__main__":
    t = time.time()
    try:
        print(ensure(), round(time.time() - t, 1), "s")
    except CannotDecide as e:
        print(e)
        sys.exit(2)
