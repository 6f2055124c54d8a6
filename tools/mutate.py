#!/usr/bin/env python3
"""Authoring tool (used by no check): mutates the repository and reports what no check notices.
  mutate.py list SEED N [pattern] > /tmp/mq/list.json      choose N mutants
  mutate.py worker I LIST                                   run inside `unshare -Urm` with copies bound over /repo and /verif
"""
import fcntl, glob, json, os, random, re, subprocess, sys, time
SRC = "/repo/crates"
SKIP = ("parser/gen", "/tests/", "doctest.rs", "main.rs", "build.rs")
RT = "crates/zserio/src"


def files():
    for p in sorted(glob.glob(SRC + "/**/*.rs", recursive=True)):
        if any(s in p for s in SKIP):
            continue
        yield p


def body(p):
    t = open(p).read()
    i = t.find("#[cfg(test)]")
    return t, (len(t) if i < 0 else i)


OPS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| (?=\w+[ ;)])", [" & "]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
    (r"(?<=[ (])!(?=[a-z])", [""]), (r"\b\d+\b", None), (r"\bcontinue;", [""]), (r"\bbreak;", [""]),
    (r" \+= ", [" -= "]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
]


def statements(t, end):
    """Whole statements `...;` on their own lines that do not declare or leave."""
    for m in re.finditer(r"(?m)^[ \t]+(?!let |return|use |pub |const |type |break|continue|//|#|\}|\.)[a-z_*][^\n{}]*?(;|\()\s*$", t):
        if m.start() >= end:
            break
        i = m.start()
        j = i
        depth = 0
        instr = False
        while j < len(t):
            c = t[j]
            if instr:
                if c == "\\":
                    j += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            elif c == ";" and depth == 0:
                break
            if depth < 0:
                break
            j += 1
        if depth == 0 and j < len(t) and t[j] == ";" and j < end:
            yield i, j + 1


def mutants():
    out = []
    for p in files():
        t, end = body(p)
        rel = os.path.relpath(p, "/repo")
        def ok(pos):
            line = t[t.rfind("\n", 0, pos) + 1:t.find("\n", pos)]
            s = line.strip()
            return not s.startswith(("//", "use ", "#", "assert", "debug_assert", "pub fn", "fn ")) and "panic!" not in s
        for rx, reps in OPS:
            for m in re.finditer(rx, t[:end]):
                if not ok(m.start()):
                    continue
                rr = reps
                if reps is None:
                    n = int(m.group())
                    rr = [str(n + 1)] + ([str(n - 1)] if n else [])
                for r in rr:
                    out.append({"file": rel, "start": m.start(), "end": m.end(), "new": r, "old": m.group()})
        for i, j in statements(t, end):
            out.append({"file": rel, "start": i, "end": j, "new": "", "old": t[i:j]})
        for m in re.finditer(r"\n +\| [^\n]+(?=\n)", t[:end]):
            if '"' in m.group() or "::" in m.group():
                out.append({"file": rel, "start": m.start(), "end": m.end(), "new": "", "old": m.group()})
        for m in re.finditer(r"\bif (?!let)([^\n{]+) \{\n", t[:end]):
            for r in ("if true || %s {\n", "if false && (%s) {\n"):
                out.append({"file": rel, "start": m.start(), "end": m.end(), "new": r % m.group(1), "old": m.group()})
    for x in out:
        t = open("/repo/" + x["file"]).read()
        x["line"] = t.count("\n", 0, x["start"]) + 1
    return out


ALL = ["C%02d" % i for i in range(1, 24)]


def order(f):
    if f.startswith(RT):
        first = []
        if "var" in f or "limits" in f or "bits" in f or "float" in f:
            first = ["C01", "C02", "C11", "C04", "C05", "C06"]
        elif "string" in f or "bytes" in f or "extern" in f:
            first = ["C03", "C08", "C09"]
        elif "delta" in f or "array" in f:
            first = ["C05", "C06", "C04", "C08"]
        elif "align" in f:
            first = ["C15", "C12"]
        elif "numbits" in f:
            first = ["C16"]
        return first + [p for p in ALL if p not in first and p != "C18"]
    first = ["C12"]
    for k, v in (("zenum", "C17"), ("zbitmask", "C17"), ("zconst", "C17"), ("expression", "C16"), ("casts", "C16"), ("choice", "C14"), ("union", "C14"),
                 ("packed", "C23"), ("array", "C15"), ("param", "C21"), ("offset", "C15"), ("template", "C20"), ("scope", "C19"), ("model", "C19"),
                 ("package", "C18"), ("mod_file", "C18"), ("decode", "C13"), ("encode", "C13"), ("bitsize", "C15"), ("visitor", "C19"), ("fundamental", "C17")):
        if k in f:
            first.insert(0, v)
    rest = ["C12", "C13", "C14", "C15", "C16", "C17", "C20", "C21", "C23", "C19", "C22", "C11", "C04", "C09", "C07", "C18"]
    return first + [p for p in rest if p not in first]


def sh(cmd, limit):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def report(x):
    with open("/tmp/mq/results.jsonl", "a") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(json.dumps(x) + "\n")


def worker(i, path):
    ms = json.load(open(path))
    while True:
        with open(path + ".next", "a+") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            f.seek(0)
            n = int(f.read() or 0)
            f.truncate(0)
            f.write(str(n + 1))
        if n >= len(ms) or os.path.exists("/tmp/mq/stop"):
            return
        m = ms[n]
        p = "/repo/" + m["file"]
        t = open(p).read()
        if t[m["start"]:m["end"]] != m["old"]:
            report(dict(m, n=n, verdict="stale"))
            continue
        open(p, "w").write(t[:m["start"]] + m["new"] + t[m["end"]:])
        try:
            t0 = time.time()
            rc, o = sh("bash /opt/vp/build.sh", 300)
            if rc:
                report(dict(m, n=n, verdict="nocompile"))
                continue
            rc, o = sh("bash /opt/vp/test.sh /tmp/mq/t%s.json" % i, 300)
            try:
                r = json.load(open("/tmp/mq/t%s.json" % i))
                failed = [k for k, v in r.items() if v not in ("pass", "passed", "PASS", True)] if isinstance(r, dict) and "failed" not in r else r.get("failed")
            except Exception:
                failed = ["?"]
            if failed:
                report(dict(m, n=n, verdict="tests"))
                continue
            got = None
            odd = []
            for c in order(m["file"]):
                rc, o = sh("cd /verif && bash check.sh %s quick" % c, 900)
                if rc == 1 and ("VIOLATION property=" + c) in o:
                    got = c
                    break
                if rc:
                    odd.append((c, rc, o[-300:]))
            report(dict(m, n=n, verdict="caught" if got else "SURVIVED", by=got, odd=odd, s=int(time.time() - t0)))
        finally:
            open(p, "w").write(t)


if sys.argv[1] == "list":
    ms = mutants()
    if len(sys.argv) > 4:
        ms = [m for m in ms if re.search(sys.argv[4], m["file"])]
    print(len(ms), "possible", file=sys.stderr)
    random.Random(int(sys.argv[2])).shuffle(ms)
    json.dump(ms[:int(sys.argv[3])], sys.stdout)
else:
    worker(sys.argv[2], sys.argv[3])
