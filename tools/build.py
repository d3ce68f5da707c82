"""Builds the machinery: the executor, the harness IR from /repo's working tree, the replayers."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TC = "stable-x86_64-unknown-linux-gnu"


def env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOCFLAGS"))}
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_TARGET_DIR"] = os.path.join(B, target)
    e["CARGO_NET_OFFLINE"] = "true"
    # For the personality function of the entry crate (no_std with unwinding); no other crate is concerned.
    e["RUSTC_BOOTSTRAP"] = "entry"
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise SystemExit("build failed: " + what)
    return p.stdout


def llvm_bin():
    root = subprocess.run(["rustc", "+" + TC, "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    return os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def symex():
    run(["cargo", "build", "--release", "--offline", "-q"], os.path.join(VERIF, "symex"), env("symex"), "symex")
    return os.path.join(B, "symex/release/symex")


def ir(features=""):
    """The optimised textual IR of harness + crate + core + alloc. Returns its path."""
    tag = "ir" + ("-" + features.replace(",", "-") if features else "")
    e = env(tag)
    deps = os.path.join(B, tag, "debug/deps")
    for f in set(glob.glob(os.path.join(deps, "*.bc")) + glob.glob(os.path.join(deps, "*entry*"))):
        os.unlink(f)
    cmd = ["cargo", "rustc", "--offline", "-q"]
    if features:
        cmd += ["--features", features]
    run(cmd + ["--", "-C", "save-temps", "--emit=llvm-bc"], os.path.join(VERIF, "entry"), e, "harness IR")
    bc = glob.glob(os.path.join(deps, "*lto.after-restriction.bc"))
    if len(bc) != 1:
        raise SystemExit("expected one merged bitcode file, got %r" % bc)
    lb = llvm_bin()
    nm = run([os.path.join(lb, "llvm-nm"), "--defined-only", "--just-symbol-name", bc[0]], B, e, "llvm-nm")
    entries = sorted(s.strip() for s in nm.split("\n") if s.strip().startswith("hx_"))
    out = os.path.join(B, tag + ".ll")
    opt = os.path.join(B, tag + ".bc")
    run([os.path.join(lb, "opt"),
         "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),globaldce",
         "--internalize-public-api-list=" + ",".join(entries), bc[0], "-o", opt], B, e, "opt")
    run([os.path.join(lb, "llvm-dis"), opt, "-o", out], B, e, "llvm-dis")
    os.unlink(opt)
    return out, entries


def replayers(release=True):
    e = env("replay")
    # Counts the edges that are taken.
    e["RUSTFLAGS"] = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
    r = [os.path.join(B, "replay/debug/replay")]
    run(["cargo", "build", "--offline", "-q"], os.path.join(VERIF, "replay"), e, "replay")
    if release:
        run(["cargo", "build", "--release", "--offline", "-q"], os.path.join(VERIF, "replay"), e, "replay (release)")
        r.append(os.path.join(B, "replay/release/replay"))
    return r


def refresh():
    """Cargo goes by time stamps; this goes by content: forgets the builds of other sources."""
    h = hashlib.sha256()
    for top in ("/repo/Cargo.toml", "/repo/src", os.path.join(VERIF, "hx"), os.path.join(VERIF, "entry"), os.path.join(VERIF, "replay")):
        files = [top] if os.path.isfile(top) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs if "/target" not in d)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(g.read() + b"\0")
    stamp = os.path.join(B, "sources")
    try:
        with open(stamp) as f:
            if f.read() == h.hexdigest():
                return
    except OSError:
        pass
    for tag in ("dendron", "hx", "replay", "entry"):
        for p in glob.glob(os.path.join(B, "*", "*", ".fingerprint", tag + "-*")):
            shutil.rmtree(p, ignore_errors=True)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def lock():
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


if __name__ == "__main__":
    with lock():
        for name, f in [("symex", symex), ("ir", ir), ("replay", replayers)]:
            if len(sys.argv) > 1 and name not in sys.argv[1:]:
                continue
            t = time.time()
            f()
            print("%s: %.1fs" % (name, time.time() - t))
