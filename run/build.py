#!/usr/bin/env python3
"""Builds (a) the symbolic executor, (b) the LLVM IR of /repo + harness + std, (c) the native
replay binary.  Everything is keyed by a hash of the sources, so a second check on the same tree
reuses it and any change in /repo's working tree forces a rebuild."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(VERIF, "engine/target/release/symex")
LLVM = None

# Bodies that are replaced by declarations; the engine gives them meaning itself (hashing, panics)
# or they are irrelevant to the properties (text of error messages).
STRIP = re.compile(
    r'hash_one|_7___rustc17rust_begin_unwind|core9panicking|_4core6option13(unwrap|expect)_failed'
    r'|core6result13unwrap_failed|hashmap_random_keys|panic_count|_4core5slice5index.*fail'
    r'|_4core3str16slice_error_fail|alloc7raw_vec12handle_error|alloc5alloc18handle_alloc_error'
    r'|rust_panic|__rust_start_panic|alloc8raw_vec17capacity_overflow|core4cell.*panic_already'
    r'|12format_inner')


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(map(str, cmd)), p.stdout[-8000:]))
        raise SystemExit(2)
    return p.stdout


def hash_tree(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if os.path.islink(f):
                h.update(b"L" + f.encode() + os.readlink(f).encode())
                continue
            with open(f, "rb") as fh:
                b = fh.read()
            h.update(f.encode() + b"\0" + str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def llvm():
    global LLVM
    if LLVM is None:
        s = sh(["rustc", "--print", "sysroot"], env=env()).strip()
        LLVM = (s, s + "/lib/rustlib/x86_64-unknown-linux-gnu/bin")
    return LLVM


def build_engine():
    key = hash_tree([VERIF + "/engine/src", VERIF + "/engine/Cargo.toml"])
    stamp = BUILD + "/engine.key"
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == key:
        return key
    sh(["cargo", "build", "--release", "--offline"], cwd=VERIF + "/engine", env=env())
    open(stamp, "w").write(key)
    return key


def std_bc():
    d = BUILD + "/std"
    if os.path.exists(d + "/ok"):
        return d
    sysroot, bins = llvm()
    shutil.rmtree(d, ignore_errors=True)
    procs = []
    for c in ["core", "alloc", "std", "hashbrown", "memchr", "std_detect", "gimli", "addr2line", "object",
              "miniz_oxide", "adler2", "rustc_demangle", "cfg_if", "libc", "unwind"]:
        for lib in glob.glob("%s/lib/rustlib/x86_64-unknown-linux-gnu/lib/lib%s-*.rlib" % (sysroot, c)):
            sub = "%s/%s" % (d, c)
            os.makedirs(sub, exist_ok=True)
            sh([bins + "/llvm-ar", "x", lib], cwd=sub)
            for o in glob.glob(sub + "/*.o"):
                procs.append((o, subprocess.Popen(
                    [bins + "/llvm-objcopy", "--dump-section", ".llvmbc=" + o[:-2] + ".bc", o, "/dev/null"],
                    stderr=subprocess.DEVNULL)))
            for o, p in procs:
                p.wait()
                if os.path.exists(o):
                    os.remove(o)
            procs = []
    open(d + "/ok", "w").write("1")
    return d


def strip_ir(src, dst):
    out, skip, names = [], False, []
    with open(src) as f:
        for l in f:
            if l.startswith("define "):
                n = re.search(r'@("[^"]+"|[\w.$]+)\(', l).group(1)
                if STRIP.search(n):
                    skip = True
                    names.append(n)
                    d = l.rstrip().rstrip("{").rstrip()
                    d = re.sub(r' !guid !\d+', '', d)
                    d = re.sub(r' personality ptr @\w+', '', d)
                    d = d.replace("define internal", "declare").replace("define", "declare").replace(" hidden ", " ")
                    out.append(d + "\n")
                    if "hash_one" in n:
                        # the body stays under another name, for the runs that use the real hash function
                        m = n[:-1] + "$real\"" if n.endswith('"') else n + "$real"
                        out.append(l.replace(n + "(", m + "(").replace("define internal", "define"))
                        skip = False
                    continue
            if skip:
                if l.startswith("}"):
                    skip = False
                continue
            out.append(l)
    with open(dst, "w") as f:
        f.writelines(out)
    return names


def entries():
    return re.findall(r'\("(\w+)", ', open(VERIF + "/harness/src/lib.rs").read())


def build_ir():
    """-> dict(ll, replay, key)"""
    key = hash_tree([REPO + "/src", REPO + "/Cargo.toml", VERIF + "/harness/src", VERIF + "/harness/Cargo.toml",
                     VERIF + "/harness/Cargo.lock", os.path.abspath(__file__)]
                    + ([REPO + "/build.rs"] if os.path.exists(REPO + "/build.rs") else []))[:20]
    d = BUILD + "/ir"
    res = dict(ll=d + "/o.ll", replay=d + "/replay", key=key, dir=d)
    if os.path.exists(d + "/key") and open(d + "/key").read() == key:
        return res
    if os.path.exists(d + "/key"):
        os.remove(d + "/key")
    os.makedirs(d, exist_ok=True)
    t = d + "/t"
    shutil.rmtree(t, ignore_errors=True)
    e = env()
    e["RUSTFLAGS"] = "--emit=llvm-bc -C no-prepopulate-passes -C symbol-mangling-version=v0"
    # the lock file is copied so that cargo never rewrites the committed one
    h = d + "/harness"
    shutil.rmtree(h, ignore_errors=True)
    shutil.copytree(VERIF + "/harness", h, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        p = h + "/Cargo.toml"
        s = open(p).read().replace('"/repo"', '"%s"' % REPO)
        open(p, "w").write(s)
    sh(["cargo", "build", "--offline", "--target", "x86_64-unknown-linux-gnu", "--target-dir", t], cwd=h, env=e)
    _, bins = llvm()
    deps = t + "/x86_64-unknown-linux-gnu/debug/deps"
    bcs = [b for b in glob.glob(deps + "/*.bc") if not os.path.basename(b).startswith("replay")]
    std = glob.glob(std_bc() + "/*/*.bc")
    sh([bins + "/llvm-link"] + bcs + std + ["-o", d + "/all.bc"])
    ents = ",".join(entries())
    sh([bins + "/opt", "-strip-debug", "-passes=internalize,globaldce",
        "-internalize-public-api-list=" + ents, d + "/all.bc", "-o", d + "/red.bc"])
    sh([bins + "/llvm-dis", d + "/red.bc", "-o", d + "/red.ll"])
    strip_ir(d + "/red.ll", d + "/red2.ll")
    sh([bins + "/llvm-as", d + "/red2.ll", "-o", d + "/red2.bc"])
    sh([bins + "/opt", "-passes=globaldce,default<O1>,globaldce", "--vectorize-loops=false",
        "--vectorize-slp=false", d + "/red2.bc", "-o", d + "/o.bc"])
    sh([bins + "/llvm-dis", d + "/o.bc", "-o", d + "/o.ll"])
    shutil.copy(t + "/x86_64-unknown-linux-gnu/debug/replay", d + "/replay")
    for f in ("all.bc", "red.bc", "red.ll", "red2.ll", "red2.bc", "o.bc"):
        os.remove(d + "/" + f)
    shutil.rmtree(t, ignore_errors=True)
    open(d + "/key", "w").write(key)
    return res


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ek = build_engine()
        r = build_ir()
        r["engine_key"] = ek
        return r


if __name__ == "__main__":
    t0 = time.time()
    r = build_all()
    print("built %s in %.1fs" % (r["key"], time.time() - t0))
