"""Builds the crate with its code generator switched on, in a scratch copy of the working tree."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.environ.get("VH_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
TARGET = os.path.join(VERIF, "target", "gen")
SCRATCH = "/tmp/vh-gen-scratch"


class BuildFailed(Exception):
    pass


def files(root, names):
    for n in names:
        p = os.path.join(root, n)
        if os.path.isfile(p):
            yield p
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                yield os.path.join(d, f)


def digest(extra=()):
    h = hashlib.sha256()
    for p in list(files(REPO, ["Cargo.toml", "Cargo.lock", "build.rs", "src", "codegen"])) + list(files(VERIF + "/harness", ["."])):
        h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for e in extra:
        h.update(e if isinstance(e, bytes) else e.encode())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VH_VERIF=VERIF, VH_REPO=REPO,
             RUSTC_WRAPPER=os.path.join(VERIF, "harness", "rustc-wrap.sh"))
    return e


class Scratch:
    """The scratch copy, there only inside `with`; one user at a time."""

    def __enter__(self):
        self.lock = open("/tmp/vh-gen.lock", "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.wipe()
        os.makedirs(SCRATCH)
        repo = SCRATCH + "/repo"
        os.makedirs(repo)
        for n in ["Cargo.toml", "Cargo.lock", "build.rs", "src", "codegen"]:
            s = os.path.join(REPO, n)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(repo, n))
            elif os.path.exists(s):
                shutil.copy2(s, os.path.join(repo, n))
        shutil.copytree(VERIF + "/harness", SCRATCH + "/harness")
        t = open(SCRATCH + "/harness/Cargo.toml").read()
        assert 'path = "/repo"' in t
        open(SCRATCH + "/harness/Cargo.toml", "w").write(t.replace('path = "/repo"', 'path = "%s/repo"' % SCRATCH))
        return self

    def wipe(self):
        if os.path.isdir(SCRATCH):
            shutil.rmtree(SCRATCH)

    def __exit__(self, *a):
        self.wipe()
        self.lock.close()


def forget(target, release="release"):
    d = os.path.join(target, release, ".fingerprint")
    if os.path.isdir(d):
        for n in os.listdir(d):
            if n.startswith("amqp-codec-") or n.startswith("vh-"):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def cargo(cwd, target, args):
    r = subprocess.run(["cargo", "build", "--offline", "--target-dir", target] + args, cwd=cwd, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_twin():
    """vh linked with the crate whose definitions come from codegen/. Returns its path."""
    exe = os.path.join(TARGET, "vh-c24")
    mark = os.path.join(TARGET, "sum")
    h = digest()
    if os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == h:
        return exe
    os.makedirs(TARGET, exist_ok=True)
    if os.path.exists(mark):
        os.remove(mark)
    with Scratch():
        forget(TARGET)
        rc, out = cargo(SCRATCH + "/harness", TARGET, ["--release", "--locked", "--features", "from-spec"])
        open(os.path.join(TARGET, "build.log"), "w").write(out)
        if rc != 0:
            raise BuildFailed(out)
        shutil.copy2(os.path.join(TARGET, "release", "vh"), exe)
    open(mark, "w").write(h)
    return exe


if __name__ == "__main__":
    import c25
    for f in (build_twin, c25.prebuild):
        try:
            print(f())
        except BuildFailed as e:
            # the checks report it
            print(str(e)[-3000:], file=sys.stderr)
