"""Regenerate the symbolic program from /repo's current source and build it.

/repo/src  --(copy + harnesses)-->  native crate  --(symdriver, rustc types)-->  symbolic crate
Both are built; the native one replays counterexamples against the real code.
"""
import hashlib, os, re, shutil, subprocess, sys, tempfile, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"

CARGO = """[package]
name = "material-color-utilities-rs"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
[lib]
path = "src/lib.rs"
[[bin]]
name = "vh"
path = "src/bin/vh.rs"
[profile.dev]
opt-level = %s
debug = false
incremental = false
overflow-checks = true
debug-assertions = true
[profile.dev.package."*"]
opt-level = 1
"""
BIN = "fn main() { material_color_utilities_rs::vh::main() }\n"


class BuildError(Exception):
    native = None


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sysroot():
    return sh(["rustc", "+" + NIGHTLY, "--print", "sysroot"])[1].strip()


def files(d):
    out = []
    for b, _, fs in os.walk(d):
        if "/target" in b:
            continue
        for f in fs:
            out.append(os.path.join(b, f))
    return sorted(out)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def driver():
    """build the rustc driver (cached in .build, keyed by its own source)"""
    src = os.path.join(V, "driver")
    key = digest(files(src))
    out = os.path.join(BUILD, "driver-" + key)
    exe = os.path.join(out, "debug", "symdriver")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            rc, o = sh(["cargo", "+" + NIGHTLY, "build", "--offline", "--target-dir", out], cwd=src)
            if rc:
                raise BuildError("driver build failed:\n" + o[-4000:])
    return exe


def deps_of(cargo):
    m = re.search(r"(?ms)^\[dependencies\]\s*\n(.*?)(?=^\[|\Z)", cargo)
    return m.group(1).strip() if m else ""


def hooks_for(modules):
    """hooks.rs split at '//@ name' markers; keep the common part and what the modules ask for"""
    t = open(os.path.join(V, "sym", "hooks.rs")).read()
    parts = re.split(r"(?m)^//@ *(\w+)\s*$", t)
    head, blocks = parts[0], dict(zip(parts[1::2], parts[2::2]))
    want = set()
    for m in modules:
        src = open(os.path.join(V, "sym", "vh", m + ".rs")).read()
        for l in re.findall(r"(?m)^//! hooks: *(.*)$", src):
            want |= set(l.split())
    txt = head + "".join(blocks[w] for w in sorted(want))
    return txt, re.findall(r"(?m)^pub fn ([a-z]\w*?__\w+)\(", txt)


def put(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(txt)


def native_src(nat, modules):
    """the repository's source plus the harness module"""
    os.makedirs(nat)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(nat, "src"))
    deps = deps_of(open(os.path.join(REPO, "Cargo.toml")).read())
    lib = os.path.join(nat, "src", "lib.rs")
    t = open(lib).read()
    put(lib, t + "\npub mod vh;\n")
    mods = ["util"] + [m for m in modules if m != "util"]
    for m in mods:
        put(os.path.join(nat, "src", "vh", m + ".rs"), open(os.path.join(V, "sym", "vh", m + ".rs")).read())
    body = "#![allow(dead_code, unused_imports, unused_variables, unused_mut)]\npub mod api;\n"
    body += "".join("pub mod %s;\n" % m for m in mods)
    body += "pub fn main() {\n    let mut all: Vec<(&'static str, fn())> = Vec::new();\n"
    body += "".join("    all.extend_from_slice(%s::REG);\n" % m for m in modules)
    body += "    api::main_entry(&all);\n}\n"
    put(os.path.join(nat, "src", "vh", "mod.rs"), body)
    shutil.copy(os.path.join(V, "sym", "api_native.rs"), os.path.join(nat, "src", "vh", "api.rs"))
    put(os.path.join(nat, "src", "bin", "vh.rs"), BIN)
    put(os.path.join(nat, "Cargo.toml"), CARGO % (deps, "1"))
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, nat)
    return deps


def cargo_build(d, tc):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e.update({"RUSTFLAGS": "-A warnings", "CARGO_NET_OFFLINE": "true"})
    return subprocess.Popen(["cargo", tc, "build", "--offline", "--bin", "vh", "--target-dir", os.path.join(d, "target")], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def native(work, modules):
    nat = os.path.join(work, "native")
    native_src(nat, modules)
    p = cargo_build(nat, "+stable")
    o = p.communicate(timeout=800)[0]
    if p.returncode:
        raise BuildError("native build failed:\n" + o[:12000])
    return os.path.join(nat, "target", "debug", "vh")


def assemble(work, modules):
    nat, sym = os.path.join(work, "native"), os.path.join(work, "symbolic")
    deps = native_src(nat, modules)
    pn = cargo_build(nat, "+stable")
    err = None
    ps = None
    try:
        exe = driver()
        htxt, hs = hooks_for(modules)
        gen = os.path.join(work, "gen")
        env = {
            "RUSTC_WORKSPACE_WRAPPER": exe,
            "LD_LIBRARY_PATH": sysroot() + "/lib",
            "SYM_OUT": gen,
            "SYM_HOOKS": " ".join(h.replace("__", "::") for h in hs),
            "RUSTFLAGS": "-A warnings",
        }
        rc, o = sh(["cargo", "+" + NIGHTLY, "check", "--lib", "--offline", "--target-dir", os.path.join(work, "t_check")], cwd=nat, env=env)
        if rc or not os.path.exists(os.path.join(gen, "SYM_REPORT.txt")):
            raise BuildError("rewriting failed:\n" + o[-6000:])
        shutil.rmtree(os.path.join(work, "t_check"), ignore_errors=True)
        shutil.copytree(os.path.join(nat, "src"), os.path.join(sym, "src"))
        for f in files(os.path.join(gen, "src")):
            d = os.path.join(sym, os.path.relpath(f, gen))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(f, d)
        shutil.copytree(os.path.join(V, "sym", "rt"), os.path.join(sym, "src", "__sym"))
        put(os.path.join(sym, "src", "__sym_hooks.rs"), htxt)
        shutil.copy(os.path.join(V, "sym", "api_sym.rs"), os.path.join(sym, "src", "vh", "api.rs"))
        lib = os.path.join(sym, "src", "lib.rs")
        t = open(lib).read()
        put(lib, "#![feature(step_trait)]\n" + t + "\npub mod __sym;\npub mod __sym_hooks;\n")
        put(os.path.join(sym, "Cargo.toml"), CARGO % (deps, "1"))
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, sym)
        ps = cargo_build(sym, "+" + NIGHTLY)
        o = ps.communicate(timeout=800)[0]
        if ps.returncode:
            raise BuildError("symbolic build failed:\n" + o[:12000])
    except BuildError as e:
        err = e
    on = pn.communicate(timeout=800)[0]
    if pn.returncode:
        raise BuildError("native build failed:\n" + on[:12000])
    nexe = os.path.join(nat, "target", "debug", "vh")
    if err:
        err.native = nexe
        raise err
    return nexe, os.path.join(sym, "target", "debug", "vh"), open(os.path.join(gen, "SYM_REPORT.txt")).read()


if __name__ == "__main__":
    w = sys.argv[1]
    mods = sys.argv[2:]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        n, s, r = assemble(w, mods)
        print(n, s, len(r))
    except BuildError as e:
        print(e)
        sys.exit(3)
