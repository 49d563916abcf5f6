"""Build steps shared by all checks: executor, std bitcode, harness bitcode + replayer.

Everything derived from /repo is rebuilt from its current working tree on every run
(cargo decides what is stale); the executor and std bitcode only depend on /verif and
the pinned toolchain and are built when missing.
"""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
LLVM = "/usr/lib/llvm-18/bin"
TOOLCHAIN = "1.74"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s\n%s" % (" ".join(cmd), p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    return p.stdout


def build_engine():
    run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "engine")])
    return os.path.join(TARGET, "engine", "symrs")


def std_bitcode():
    out = os.path.join(TARGET, "std")
    stamp = os.path.join(out, "done")
    if not os.path.exists(stamp):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        sysroot = run(["rustc", "--print", "sysroot"], env=env()).strip()
        for rlib in sorted(glob.glob(os.path.join(sysroot, "lib/rustlib", TRIPLE, "lib/*.rlib"))):
            name = os.path.basename(rlib)
            if any(x in name for x in ("compiler_builtins", "libtest", "proc_macro", "profiler", "getopts", "unicode_width")):
                continue
            d = os.path.join(out, "x")
            os.makedirs(d, exist_ok=True)
            run(["ar", "x", rlib], cwd=d)
            for o in sorted(glob.glob(os.path.join(d, "*.o"))):
                bc = os.path.join(out, os.path.basename(o)[:-2] + ".bc")
                subprocess.run([os.path.join(LLVM, "llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, o, "/dev/null"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            shutil.rmtree(d)
        open(stamp, "w").close()
    return sorted(p for p in glob.glob(os.path.join(out, "*.bc")) if os.path.getsize(p) > 0)


def sqlite_bitcode():
    """The bundled SQLite, with the options libsqlite3-sys builds it with."""
    lock = open(os.path.join(VERIF, "harness", "Cargo.lock")).read()
    ver = lock.split('name = "libsqlite3-sys"\nversion = "')[1].split('"')[0]
    out = os.path.join(TARGET, "sqlite-%s.bc" % ver)
    if not os.path.exists(out):
        src = glob.glob("/root/.cargo/registry/src/*/libsqlite3-sys-%s/sqlite3/sqlite3.c" % ver)[0]
        run(["clang-18", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-c", "-o", out + ".tmp", src]
            + ["-D" + d for d in ("SQLITE_THREADSAFE=1", "SQLITE_OMIT_LOAD_EXTENSION", "SQLITE_DEFAULT_MEMSTATUS=0",
                                  "SQLITE_ENABLE_API_ARMOR", "SQLITE_DEFAULT_FOREIGN_KEYS=1", "SQLITE_ENABLE_COLUMN_METADATA",
                                  "SQLITE_USE_URI", "HAVE_USLEEP=1", "HAVE_ISNAN", "HAVE_LOCALTIME_R")])
        os.rename(out + ".tmp", out)
    return out


def build_harness(crate="harness"):
    e = env()
    e["RUSTFLAGS"] = "--emit=llvm-bc --cfg verif"
    cmd = ["cargo", "build", "--offline", "--target", TRIPLE, "--target-dir", TARGET, "--message-format=json"]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    bcs, exe = [], None
    msgs = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
            msgs.append(m["message"].get("rendered", ""))
        if m.get("reason") != "compiler-artifact":
            continue
        kinds = m["target"]["kind"]
        if "proc-macro" in kinds or "custom-build" in kinds:
            continue
        if m.get("executable") and "bin" in kinds:
            exe = m["executable"]
        for f in m["filenames"]:
            if "/" + TRIPLE + "/" not in f:
                continue
            if f.endswith(".rlib"):
                base = os.path.basename(f)[3:-5]
                bcs.append(os.path.join(os.path.dirname(f), base + ".bc"))
            elif m.get("executable") == f:
                # the bin artifact is hard-linked out of deps under its hashed name
                st = os.stat(f)
                for d in glob.glob(os.path.join(os.path.dirname(f), "deps", m["target"]["name"].replace("-", "_") + "-*")):
                    if "." not in os.path.basename(d) and os.path.samestat(os.stat(d), st):
                        bcs.append(d + ".bc")
    if p.returncode != 0:
        raise BuildError("cargo build failed:\n" + "\n".join(msgs)[-6000:] + p.stderr[-4000:])
    for b in bcs:
        if not os.path.exists(b):
            raise BuildError("missing bitcode " + b)
    return bcs, exe


def build_all():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        symrs = build_engine()
        std = std_bitcode()
        sqlite = sqlite_bitcode()
        bcs, exe = build_harness()
        lst = os.path.join(TARGET, "bc.list")
        with open(lst, "w") as f:
            f.write("\n".join(bcs + std + [sqlite]) + "\n")
        return {"symrs": symrs, "bclist": lst, "exe": exe, "build_s": time.time() - t0, "modules": len(bcs) + len(std)}


if __name__ == "__main__":
    try:
        print(json.dumps(build_all()))
    except BuildError as ex:
        print(ex, file=sys.stderr)
        sys.exit(3)
