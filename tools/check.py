#!/usr/bin/env python3
"""Builds the machinery against /repo's current tree and runs the check of one property."""
import glob, hashlib, os, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
RUNTIME = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"]


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUST_")):
            del e[k]
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUST_BACKTRACE="0",
             VERIF_DIR=VERIF)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


ENV = env()


def die(msg):
    print("MACHINERY-ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def forget_stale():
    """A copied tree may carry misleading mtimes: forget what was built from other sources."""
    os.makedirs(TARGET, exist_ok=True)
    now = tree_hash([REPO + "/crates"])
    stamp = os.path.join(TARGET, "repo.sha256")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for n in ("zserio-*", "mcrt-*", "mcgen-*", "mcwork*"):
            for p in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", n)):
                shutil.rmtree(p)
        with open(stamp, "w") as f:
            f.write(now)


def cargo(crate, *extra):
    r = subprocess.run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(crate, "Cargo.toml"), *extra],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r


def build(crate, *extra):
    r = cargo(crate, *extra)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("cannot build " + crate)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(cmd, prop, tier, limit):
    e = dict(ENV, MC_TIER=tier)
    for k in ("MC_TASK", "MC_TIMES", "MC_ALL"):
        if k in os.environ:
            e[k] = os.environ[k]
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    try:
        p = subprocess.run(cmd, env=e, cwd=VERIF, preexec_fn=limits, timeout=limit)
    except subprocess.TimeoutExpired:
        die("driver exceeded %d s" % limit)
    if p.returncode < 0 or p.returncode in (134, 137, 139):
        # killed by a signal: abort (allocation failure, stack overflow) inside the code under test
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", prop + "-crash.txt")
        with open(rp, "w") as f:
            f.write("process ended with %d\nbash /verif/check.sh %s %s\n" % (p.returncode, prop, tier))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  the code under test ended the process (status %d)" % p.returncode, flush=True)
        sys.exit(1)
    sys.exit(p.returncode)


GEN = ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"]
WITH_GEN = GEN + RUNTIME
# these use the generated types of other properties' schemas; whether those generate and compile is not theirs to judge
BORROW = RUNTIME + ["C22"]
CLI = TARGET + "/debug/zserio-rs-build"
CARGO_TOML = """[package]
name = "mcwork_%(id)s"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
mcgen = { path = "%(verif)s/mc/gen" }
mcrt = { path = "%(verif)s/mc/rt" }
mccore = { path = "%(verif)s/mc/core" }
zserio = { path = "%(repo)s/crates/zserio" }
%(libs)s
[profile.dev]
opt-level = 0
debug = false
debug-assertions = true
overflow-checks = true
incremental = false
codegen-units = 64

[profile.dev.package."*"]
opt-level = 2
debug-assertions = true
overflow-checks = true
"""


def put(path, text):
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def sync(src, dst):
    """Mirror src into dst, touching only files that differ."""
    want = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            want.add(rel)
            with open(os.path.join(d, f)) as fh:
                put(os.path.join(dst, rel), fh.read())
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in want:
                os.remove(os.path.join(d, f))


def one_line(t, n=300):
    t = " ".join(x.strip() for x in t.splitlines() if not x.startswith(("stack backtrace", "note:")))
    return t.replace("\t", " ")[:n]


def root_of(prop, units, unit):
    """Where the generated code of a unit goes: C19 explores all three kinds of --root."""
    if prop != "C19":
        return "module"
    return ("module", "nested", "crate")[units.index(unit) % 3]


LIB_TOML = """[package]
name = "zs_%(unit)s"
version = "0.1.0"
edition = "2021"

[dependencies]
mcgen = { path = "%(verif)s/mc/gen" }
mccore = { path = "%(verif)s/mc/core" }
zserio = { path = "%(repo)s/crates/zserio" }
"""


def generate(work, unit, kind="module"):
    """Runs the compiler on one unit; returns a description of what failed, or None."""
    root = {"module": "g_" + unit, "nested": "g_" + unit + "::inside::here", "crate": ""}[kind]
    out = os.path.join(work, "out", unit)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        p = subprocess.run([CLI, "-o", out] + (["--root", root] if root else []) + [os.path.join(work, "zs", unit)], env=ENV, cwd=work,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "the compiler does not terminate on this schema"
    if p.returncode != 0:
        return "the compiler refuses this schema: " + one_line(p.stdout)
    top = "lib.rs" if kind == "crate" else "mod.rs"
    if not os.path.exists(os.path.join(out, top)):
        return "the compiler wrote no " + top
    src = os.path.join(work, "src", "g_" + unit)
    if kind == "module":
        sync(out, src)
    elif kind == "nested":
        # crate::g_<unit>::inside::here
        os.rename(out, out + ".tmp")
        os.makedirs(out + "/inside")
        os.rename(out + ".tmp", out + "/inside/here")
        put(out + "/mod.rs", "pub mod inside;\npub use inside::here::*;\n")
        put(out + "/inside/mod.rs", "pub mod here;\n")
        sync(out, src)
    else:
        # a crate of its own, with its bindings inside
        crate = os.path.join(work, "libs", "g_" + unit)
        with open(os.path.join(work, "src", "b_%s.rs" % unit)) as f:
            put(os.path.join(out, "b_%s.rs" % unit), f.read())
        with open(os.path.join(out, "lib.rs"), "a") as f:
            f.write("#[allow(warnings)]\npub mod b_%s;\nmod g_%s {\n    pub use crate::*;\n}\n" % (unit, unit))
        sync(out, os.path.join(crate, "src"))
        put(os.path.join(crate, "Cargo.toml"), LIB_TOML % {"unit": unit, "verif": VERIF, "repo": REPO})
    return None


def link(work, prop, units, kinds):
    put(os.path.join(work, "Cargo.toml"), CARGO_TOML % {"id": prop.lower(), "verif": VERIF, "repo": REPO,
        "libs": "".join('zs_%s = { path = "libs/g_%s" }\n' % (u, u) for u in units if kinds[u] == "crate")})
    main = "// generated\n#[global_allocator]\nstatic ALLOC: mcrt::alloc::Counting = mcrt::alloc::Counting;\n"
    for u in units:
        if kinds[u] == "crate":
            main += "use zs_%s::b_%s;\n" % (u, u)
        else:
            main += "#[rustfmt::skip]\n#[allow(warnings)]\nmod g_%s;\nmod b_%s;\n" % (u, u)
    main += "fn main() {\n    mcgen::drv::main(&[\n"
    for u in units:
        main += '        ("%s", b_%s::bound),\n' % (u, u)
    main += "    ]);\n}\n"
    put(os.path.join(work, "src", "main.rs"), main)


def prepare(prop, tier):
    """Schemas -> compiler -> Rust -> driver binary. Returns (binary, failures)."""
    from concurrent.futures import ThreadPoolExecutor
    work = os.path.join(VERIF, "work", prop)
    os.makedirs(work, exist_ok=True)
    p = subprocess.run([TARGET + "/debug/mcemit", prop, tier, work], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout)
        die("mcemit failed")
    units = p.stdout.split()
    kinds = {u: root_of(prop, units, u) for u in units}
    failures = []
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda u: generate(work, u, kinds[u]), units))
    ok = []
    for u, r in zip(units, res):
        if r is None:
            ok.append(u)
        else:
            failures.append(("gen:" + u, r))
    if prop == "C18":
        # orders of declarations that give the same text need compiling only once
        seen = {}
        for u in list(ok):
            h = hashlib.sha256()
            root = os.path.join(work, "src", "g_" + u)
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    with open(os.path.join(d, f)) as fh:
                        h.update((os.path.relpath(os.path.join(d, f), root) + "\0" + fh.read().replace("g_" + u + "::", "g::") + "\0").encode())
            if "_v" in u and (u.split("_v")[0], h.digest()) in seen:
                ok.remove(u)
            seen[(u.split("_v")[0], h.digest())] = u
    for _ in range(6):
        link(work, prop, ok, kinds)
        r = cargo(work, "--message-format=json", "--keep-going")
        if r.returncode == 0:
            break
        import json
        bad = {}
        other = []
        for line in r.stdout.splitlines():
            if not line.startswith("{"):
                other.append(line)
                continue
            m = json.loads(line)
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                continue
            m = m["message"]
            hit = None
            def spans(m):
                for s in m["spans"]:
                    yield s
                    e = s.get("expansion")
                    while e:
                        yield e["span"]
                        e = e["span"].get("expansion")
                for c in m.get("children", []):
                    yield from spans(c)
            for s in spans(m):
                fn = s["file_name"]
                parts = fn.split("/")
                for x in parts:
                    for pre in ("g_", "b_"):
                        y = x[:-3] if x.endswith(".rs") else x
                        if y.startswith(pre) and y[2:] in ok:
                            hit = hit or y[2:]
            if hit:
                bad.setdefault(hit, m.get("rendered") or m["message"])
            elif m["spans"]:
                other.append(m.get("rendered") or m["message"])
        if not bad:
            print("\n".join(other)[-6000:])
            die("the generated code does not compile and no schema can be blamed")
        for u, t in sorted(bad.items()):
            failures.append(("rustc:" + u, "the generated code does not compile: " + one_line(t, 500)))
            ok.remove(u)
    else:
        die("the generated code does not compile")
    put(os.path.join(work, "failures.txt"), "".join("%s\t%s\n" % x for x in failures))
    return TARGET + "/debug/mcwork_" + prop.lower(), os.path.join(work, "failures.txt")


def split_std(text):
    """`use std::{a, collections::B};` -> the collections part on its own line."""
    import re
    out = ""
    at = 0
    for m in re.finditer(r"use\s+std::\{", text):
        if m.start() < at:
            continue
        i = m.end()
        depth = 1
        items = [""]
        while depth and i < len(text):
            c = text[i]
            depth += (c == "{") - (c == "}")
            if depth and c == "," and depth == 1:
                items.append("")
            elif depth:
                items[-1] += c
            i += 1
        coll = [x.strip() for x in items if x.strip().startswith("collections")]
        rest = [x.strip() for x in items if x.strip() and not x.strip().startswith("collections")]
        if not coll:
            continue
        out += text[at:m.start()] + "".join("use std::%s; " % x for x in coll) + "use std::{%s}" % ", ".join(rest)
        at = i
    return out + text[at:]


def build_orders():
    """The compiler with its hash maps replaced by ones that iterate in a chosen order. None if that cannot be built."""
    import re
    src = REPO + "/crates/zserio-rs-build"
    dst = os.path.join(VERIF, "work", "C18", "compiler")
    for d, ds, fs in os.walk(os.path.join(src, "src")):
        for f in fs:
            if f.endswith((".rs", ".zs", ".txt")):
                p = os.path.join(d, f)
                with open(p) as fh:
                    t = fh.read()
                if f.endswith(".rs"):
                    t = re.sub(r"(?<![\w:])(::)?std\s*::\s*collections", "mcord::collections", split_std(t))
                put(os.path.join(dst, os.path.relpath(p, src)), t)
    with open(os.path.join(src, "Cargo.toml")) as fh:
        t = fh.read()
    t = re.sub(r'(?m)^version\.workspace.*$', 'version = "0.0.0"', t)
    t = re.sub(r'(?m)^edition\.workspace.*$', 'edition = "%s"' % workspace_edition(), t)
    t = re.sub(r'(?m)^\w+\.workspace.*\n', '', t)
    t = re.sub(r'(?m)^name = "zserio-rs-build"', 'name = "zserio-rs-build-mcord"', t, count=1)
    t = t.replace('path = "../zserio"', 'path = "%s/crates/zserio"' % REPO)
    t = t.replace("[dependencies]", '[workspace]\n\n[lib]\nname = "zserio_rs_build"\n\n[[bin]]\nname = "mcord-cli"\npath = "src/main.rs"\n\n[profile.dev]\nopt-level = 1\ndebug = false\nincremental = false\n\n[dependencies]\nmcord = { path = "%s/mc/ord" }' % VERIF, 1)
    put(os.path.join(dst, "Cargo.toml"), t)
    r = cargo(dst, "--bin", "mcord-cli")
    if r.returncode != 0:
        print("note: the compiler with chosen map orders does not build; only the compiler itself is run\n" + r.stdout[-1500:])
        return None
    return TARGET + "/debug/mcord-cli"


def workspace_edition():
    import re
    with open(REPO + "/Cargo.toml") as fh:
        m = re.search(r'(?m)^edition = "(\d+)"', fh.read())
    return m.group(1) if m else "2021"


def prepare_orders():
    so = os.path.join(VERIF, "work", "C18", "dirs.so")
    os.makedirs(os.path.dirname(so), exist_ok=True)
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, VERIF + "/mc/ord/dirs.c", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("cannot build dirs.so: " + r.stdout)
    ENV["MC_DIRSHIM"] = so
    ENV["MC_CLI"] = CLI
    c = build_orders()
    if c:
        ENV["MC_ORDERCLI"] = c


def prepare_refusals():
    build(REPO + "/crates/zserio")
    ENV["MC_CLI"] = CLI
    ENV["MC_RLIB"] = TARGET + "/debug/libzserio.rlib"
    ENV["MC_DEPS"] = TARGET + "/debug/deps"


def build_gen():
    build(REPO + "/crates/zserio-rs-build", "--bin", "zserio-rs-build")
    build(VERIF + "/mc/gen")


def main():
    if sys.argv[1:2] == ["--setup"]:
        forget_stale()
        build(VERIF + "/mc/rt")
        build_gen()
        for p in WITH_GEN:
            prepare(p, "quick")
        prepare_orders()
        prepare_refusals()
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    forget_stale()
    limit = 800 if tier == "quick" else 7200
    if prop in WITH_GEN:
        build_gen()
        exe, failures = prepare(prop, tier)
        if prop == "C18":
            prepare_orders()
        if prop == "C24":
            prepare_refusals()
        if prop in BORROW:
            n = len(open(failures).read().splitlines())
            if n:
                print("note: %d schemas that do not generate or compile are left to the properties they belong to" % n)
        else:
            ENV["MC_FAILURES"] = failures
        run_driver([exe, prop], prop, tier, limit)
    build(VERIF + "/mc/rt")
    run_driver([TARGET + "/debug/mcrt", prop], prop, tier, limit)


main()
