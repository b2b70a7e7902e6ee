"""Shared helpers: building what is under test from /repo, running it, recording what was explored."""
import fcntl, gzip, hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
DEEP = TIER == "thorough"
JOBS = os.cpu_count() or 4
PRLIMIT = shutil.which("prlimit")


def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def _cargo(name, manifest_dir, lock_from, args, extra_env, src):
    """cargo build into .cache/<name>; rebuilt whenever the sources' content differs from the last build."""
    target = os.path.join(CACHE, name)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lockf"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".stamp")
        want = tree_hash(src)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            # content decides, not file times: drop our crates' fingerprints
            for d, dirs, _ in os.walk(target):
                if os.path.basename(d) == ".fingerprint":
                    for x in list(dirs):
                        if x.startswith("wimbd"):
                            shutil.rmtree(os.path.join(d, x))
                    dirs[:] = []
        lockdir = os.path.join(target, "lock")
        os.makedirs(lockdir, exist_ok=True)
        shutil.copyfile(lock_from, os.path.join(lockdir, "Cargo.lock"))
        cmd = ["cargo", "build", "--offline", "--target-dir", target,
               "--config", 'resolver.lockfile-path="%s/Cargo.lock"' % lockdir] + args
        for attempt in (1, 2):
            r = subprocess.run(cmd, cwd=manifest_dir, env=env(**extra_env), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                open(stamp, "w").write(want)
                return True, ""
        if os.path.exists(stamp):
            os.unlink(stamp)
        return False, r.stdout


def build_cli():
    ok, log = _cargo("cli", REPO, REPO + "/Cargo.lock", [], {}, [REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock"])
    return (os.path.join(CACHE, "cli", "debug", "wimbd") if ok else None), log


def build_harness():
    hd = os.path.join(VERIF, "harness")
    ok, log = _cargo("harness", hd, hd + "/Cargo.lock", ["--release", "--bin", "wimbd-harness"], {},
                     [REPO + "/src", REPO + "/Cargo.toml", hd + "/src", hd + "/Cargo.toml"])
    return (os.path.join(CACHE, "harness", "release", "wimbd-harness") if ok else None), log


def build_cmdh():
    hd = os.path.join(VERIF, "cmdh")
    ok, log = _cargo("cmdh", hd, hd + "/Cargo.lock", ["--bin", "wimbd-cmdh"], {},
                     [REPO + "/src", REPO + "/Cargo.toml", hd + "/src", hd + "/Cargo.toml"])
    return (os.path.join(CACHE, "cmdh", "debug", "wimbd-cmdh") if ok else None), log


class Violation(Exception):
    def __init__(self, msg, files=None, cmd=None):
        super().__init__(msg)
        self.msg, self.files, self.cmd = msg, files or {}, cmd


class Undecided(Exception):
    pass


class Report:
    """what a bounded exploration covered"""

    def __init__(self, rule):
        self.rule = rule
        self.evaluations = 0
        self._keys = set()
        self.samples = []
        self.notes = []
        self._l = threading.Lock()

    def case(self, desc, nontrivial=True):
        with self._l:
            self.evaluations += 1
            if nontrivial:
                k = hashlib.sha1(repr(desc).encode()).digest()
                if k not in self._keys:
                    self._keys.add(k)
                    if len(self.samples) < 4:
                        self.samples.append(str(desc)[:600])

    def absorb(self, d):
        with self._l:
            self.evaluations += d["evaluations"]
            for i in range(d["distinct"]):
                self._keys.add((id(d), i))
            self.samples += d["samples"][: max(0, 4 - len(self.samples))]

    def coverage(self):
        return dict(evaluations=self.evaluations, distinct_nontrivial=len(self._keys), rule=self.rule,
                    samples=self.samples[:4])


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="wimbd-verif-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def run(cmd, cwd=None, timeout=120, extra=None, stdin=None):
    e = dict(os.environ)
    e.pop("RUST_BACKTRACE", None)
    e["RUST_BACKTRACE"] = "0"
    if extra:
        e.update(extra)
    if PRLIMIT:
        # a misread size must not eat the machine's memory
        cmd = [PRLIMIT, "--as=%d" % (6 << 30)] + [str(c) for c in cmd]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           input=stdin)
    except subprocess.TimeoutExpired as t:
        return None, (t.stdout or b"").decode("utf8", "replace"), (t.stderr or b"").decode("utf8", "replace")
    return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")


def parallel(fn, seeds, jobs=None):
    """run fn(seed) for every seed; the first Violation is raised"""
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        futs = [ex.submit(fn, s) for s in seeds]
        err = None
        for f in futs:
            try:
                if err is None:
                    f.result()
                else:
                    f.cancel()
            except Violation as v:
                err = v
                for g in futs:
                    g.cancel()
            except Exception:
                for g in futs:
                    g.cancel()
                raise
        if err:
            raise err
