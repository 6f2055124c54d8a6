#!/usr/bin/env python3
"""Authoring tool for planted bugs (not used by any check): python3 tools/mkseed.py DEF.py
DEF.py defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], MAIN (rust), optional SCHEMA {name: text}."""
import subprocess, sys, os, shutil, json, runpy
d = runpy.run_path(sys.argv[1])
WT = "/tmp/wt"
out = f"/verif/seeded/{d['ID']}"
os.makedirs(out, exist_ok=True)
head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
if not os.path.isdir(WT):
    subprocess.check_call(["git", "clone", "-q", "/repo", WT])
subprocess.check_call(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "-f", head])
for f, old, new in d["EDITS"]:
    p = os.path.join(WT, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, "w").write(s.replace(old, new))
open(out + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", WT, "diff"], text=True))
json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
open(out + "/main.rs", "w").write(d.get("MAIN", "").strip() + "\n")
schema = d.get("SCHEMA")
gen = ""
if schema:
    shutil.rmtree(out + "/schema", ignore_errors=True); os.makedirs(out + "/schema")
    for n, t in schema.items():
        q = out + "/schema/" + n; os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "w").write(t.strip() + "\n")
    gen = '''cargo build -q --offline --manifest-path "$repo/Cargo.toml" -p zserio-rs-build --target-dir "$t/gen-target" || exit 3
mkdir -p "$t/src/gen"
"$t/gen-target/debug/zserio-rs-build" -o "$t/src/gen" --root gen "$here/schema" || { echo "compiler failed"; exit 1; }
'''
open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/"; cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
zserio = {{ path = "$repo/crates/zserio" }}
[workspace]
X
{gen}cd "$t" && timeout 250 cargo run -q --offline --target-dir "$t/target" || exit 1
''')
if d.get("DEMO"):  # a shell body instead of the crate: $t scratch, $repo, $here, $zs the compiler
    os.remove(out + "/main.rs")
    open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo build -q --offline --manifest-path "$repo/Cargo.toml" -p zserio-rs-build --target-dir "$t/gen-target" || exit 3
zs=$t/gen-target/debug/zserio-rs-build
{d["DEMO"].strip()}
''')
if len(sys.argv) > 2 and sys.argv[2] == "nocheck": sys.exit()
env = dict(os.environ)
r = subprocess.run(["bash", out + "/demo.sh"], cwd=WT, capture_output=True, text=True)
print(d["ID"], "patched:", r.returncode, (r.stdout + r.stderr)[-400:])
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "-f", head])
r2 = subprocess.run(["bash", out + "/demo.sh"], cwd=WT, capture_output=True, text=True)
print(d["ID"], "clean:", r2.returncode, (r2.stdout + r2.stderr)[-1500:] if r2.returncode else "")
print("OK" if r.returncode and not r2.returncode else "BAD SEED", d["ID"])
