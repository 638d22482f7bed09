"""Extracts the resolved program (MIR, types, impls) of /repo's working tree.

The workspace is type-checked with the nightly compiler through a rustc driver
(driver/main.rs) that writes what it sees as JSON.  Dependencies are checked
with the plain compiler.  Nothing of the analysed program is run.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
TC = "/root/.rustup/toolchains"
NIGHTLY = os.path.join(TC, "nightly-x86_64-unknown-linux-gnu")
CRATES = ["juno", "juno_axum", "juno_derive"]


def _stable_cargo():
    for d in sorted(os.listdir(TC)):
        if d.startswith("stable"):
            return os.path.join(TC, d, "bin", "cargo")
    return os.path.join(NIGHTLY, "bin", "cargo")


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")) or f in ("rust-toolchain",):
                out.append(os.path.join(root, f))
    return out


def _hash(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def _env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"))}
    e["PATH"] = os.path.join(NIGHTLY, "bin") + ":/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["LD_LIBRARY_PATH"] = os.path.join(NIGHTLY, "lib")
    return e


def _build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    key = _hash([src])
    out = os.path.join(BUILD, "driver-" + key[:16])
    if not os.path.exists(out):
        cmd = [os.path.join(NIGHTLY, "bin", "rustc"), "--edition", "2021", "-Copt-level=1",
               "-Awarnings", src, "-o", out + ".tmp",
               "-Clink-args=-Wl,-rpath," + os.path.join(NIGHTLY, "lib")]
        r = subprocess.run(cmd, env=_env(), cwd=BUILD, capture_output=True, text=True)
        if r.returncode != 0:
            raise SystemExit2("driver build failed:\n" + r.stderr[-4000:])
        os.rename(out + ".tmp", out)
    return out, key


class SystemExit2(Exception):
    pass


def spec_files():
    d = os.path.join(VERIF, "spec")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".rs")]


def _specs(driver, target, tmp):
    """Compiles the reference definitions against the analysed crate.  One
    that does not fit it any more is recorded, for the checks that need it."""
    deps = os.path.join(target, "debug", "deps")
    libs = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("libjuno-") and f.endswith(".rmeta")]
    lib = max(libs, key=os.path.getmtime)
    e = _env()
    e.update(VF_OUT=tmp)
    procs = []
    for f in spec_files():
        name = "spec_" + os.path.basename(f)[:-3]
        cmd = [driver, os.path.join(NIGHTLY, "bin", "rustc"), "--crate-name", name, "--crate-type", "lib",
               "--edition", "2021", "--emit", "metadata", "-Awarnings", f,
               "--extern", "juno=" + lib, "-L", "dependency=" + deps,
               "--out-dir", tmp]
        for x in ("rand", "bounded_vec_deque", "serde_json", "ndarray", "ndarray_stats", "time", "serde", "once_cell", "ezing", "itertools", "rayon", "anyhow", "futures", "reqwest", "axum", "tokio_rayon", "async_trait", "tracing"):
            c = [y for y in os.listdir(deps) if y.startswith("lib%s-" % x) and y.endswith(".rmeta")]
            if c:
                cmd += ["--extern", "%s=%s" % (x, os.path.join(deps, sorted(c)[-1]))]
        procs.append((name, subprocess.Popen(cmd, env=e, cwd=tmp, stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT, text=True)))
    for name, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0 or not os.path.exists(os.path.join(tmp, name + ".json")):
            with open(os.path.join(tmp, name + ".err"), "w") as fo:
                fo.write(out[-6000:])


def extract(specs=()):
    """Returns (dict crate -> facts, info)."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        fresh_target = not os.path.exists(os.path.join(BUILD, "target"))
        driver, dkey = _build_driver()
        files = source_files()
        wrapper = os.path.join(VERIF, "driver", "wrap.sh")
        key = _hash(files + spec_files(), dkey.encode() + open(wrapper, "rb").read() + open(__file__, "rb").read())
        outdir = os.path.join(BUILD, "facts", key[:32])
        cached = os.path.exists(os.path.join(outdir, "ok"))
        if not cached:
            base = os.path.join(BUILD, "facts")
            if os.path.isdir(base) and len(os.listdir(base)) > 6:
                shutil.rmtree(base)
            tmp = outdir + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            target = os.path.join(BUILD, "target")
            fp = os.path.join(target, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("juno-", "juno_axum-", "juno_derive-")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            e = _env()
            e.update(RUSTC_WRAPPER=wrapper, RUSTC=os.path.join(NIGHTLY, "bin", "rustc"),
                     CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0",
                     VF_OUT=tmp, VF_DRIVER=driver, VF_SCRATCH=BUILD)
            r = subprocess.run([_stable_cargo(), "check", "--workspace", "--offline", "--locked"],
                               cwd=REPO, env=e, capture_output=True, text=True)
            if r.returncode != 0:
                raise SystemExit2("cargo check of the analysed tree failed:\n" + r.stderr[-6000:])
            for c in CRATES:
                if not os.path.exists(os.path.join(tmp, c + ".json")):
                    raise SystemExit2("no facts were written for crate " + c)
            _specs(driver, target, tmp)
            open(os.path.join(tmp, "ok"), "w").close()
            shutil.rmtree(outdir, ignore_errors=True)
            os.rename(tmp, outdir)
        facts = {}
        for c in CRATES:
            with open(os.path.join(outdir, c + ".json")) as f:
                facts[c] = json.load(f)
        errors = {}
        for c in specs:
            c = "spec_" + c
            if os.path.exists(os.path.join(outdir, c + ".json")):
                with open(os.path.join(outdir, c + ".json")) as f:
                    facts[c] = json.load(f)
            else:
                with open(os.path.join(outdir, c + ".err")) as f:
                    errors[c] = f.read()
        info = {"spec_errors": errors, "source_files": len(files), "facts_cached": cached, "cold_target": fresh_target,
                "extract_s": round(time.time() - t0, 2), "source_key": key[:16]}
        return facts, info
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    try:
        f, i = extract()
    except SystemExit2 as ex:
        print(ex)
        sys.exit(2)
    print(i)
    for c, v in f.items():
        print(c, "functions", len(v["fns"]), "impls", len(v["impls"]), "types", len(v["types"]))
