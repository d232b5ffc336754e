"""Builds the engine, the native replay binary and the LLVM IR of the harnesses together with the
current tree of /repo.  Everything goes to /verif/build, which git ignores."""
import fcntl, glob, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = V + "/build"
TARGET = "x86_64-unknown-linux-gnu"
OPT = os.environ.get("RNV_OPT", "1")


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, what=""):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update({"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true"})
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f"{what or cmd[0]} failed:\n" + p.stdout[-4000:])
    return p.stdout


def tools():
    root = run(["rustc", "--print", "sysroot"], V).strip()
    return f"{root}/lib/rustlib/{TARGET}/bin"


def engine():
    run(["cargo", "build", "--release", "--offline", "--target-dir", B + "/engine"], V + "/engine", what="engine build")
    return B + "/engine/release/rsx"


def harness_names(hooks=True):
    names = []
    for f in sorted(glob.glob(V + "/harness/src/*.rs")):
        names += re.findall(r"^fn ([tln]\d+_[a-z0-9_]+)\(\)", open(f).read(), re.M)
    return names


def forget(d):
    """A changed /repo must be compiled again, whatever its time stamps say."""
    for n in ("rusty_network", "rnv"):
        for f in glob.glob(f"{d}/.fingerprint/{n}-*"):
            shutil.rmtree(f, ignore_errors=True)


def native(feat):
    nd = B + "/native" + ("" if feat else "0")
    forget(nd + "/release")
    run(["cargo", "build", "--release", "--offline", "--bin", "replay", "--features", ",".join(["native"] + feat), "--target-dir", nd],
        V + "/harness", {"RUSTFLAGS": "--cfg rn_verif" if feat else ""}, "native build of the harnesses")
    return nd + "/release/replay"


def ir(feat):
    base = B + "/ir" + ("" if feat else "0")
    d = f"{base}/{TARGET}/release/deps"
    flags = ("--cfg rn_verif " if feat else "") + "--emit=llvm-bc -C panic=abort -C no-vectorize-loops -C no-vectorize-slp -C overflow-checks=on -C codegen-units=1"
    args = ["cargo", "build", "--release", "--offline", "--lib", "-Zbuild-std=std,panic_abort", "--target", TARGET,
            "--config", f"profile.release.opt-level={OPT}", "--target-dir", base]
    if feat:
        args += ["--features", ",".join(feat)]
    # bitcode of a previous build must not be linked twice
    for f in glob.glob(d + "/rusty_network-*.bc") + glob.glob(d + "/rnv-*.bc"):
        os.unlink(f)
    forget(f"{base}/{TARGET}/release")
    run(args, V + "/harness", {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": flags}, "compiling to LLVM IR")
    bcs = [f for f in sorted(glob.glob(d + "/*.bc")) if not re.search(r"/(panic_unwind|proc_macro|tempdir|remove_dir_all)", f)]
    t = tools()
    run([t + "/llvm-link"] + bcs + ["-o", B + "/all.bc"], V)
    run([t + "/opt", "-passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(harness_names()), B + "/all.bc", "-o", B + "/pr.bc"], V)
    run([t + "/llvm-dis", B + "/pr.bc", "-o", B + "/pr.ll.tmp"], V)
    os.replace(B + "/pr.ll.tmp", B + "/pr.ll")
    return B + "/pr.ll"


def build_all():
    """-> dict(engine, replay, ll, hooks, seconds)"""
    os.makedirs(B, exist_ok=True)
    t0 = time.time()
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        from concurrent.futures import ThreadPoolExecutor
        def both(feat):
            with ThreadPoolExecutor(3) as ex:
                a, b, c = ex.submit(engine), ex.submit(native, feat), ex.submit(ir, feat)
                return a.result(), b.result(), c.result()
        hooks = True
        try:
            e, n, l = both(["hooks"])
        except BuildError as err:
            # a private item that a hook shows may have been renamed: go on without the hooks
            sys.stderr.write(str(err)[-1500:] + "\nretrying without hooks\n")
            hooks = False
            e, n, l = both([])
    return dict(engine=e, replay=n, ll=l, hooks=hooks, seconds=time.time() - t0)


if __name__ == "__main__":
    print(build_all())
