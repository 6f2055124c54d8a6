"""Authoring time: replays the encodings of the model on the zserio reference implementation.

    /verif/target/debug/mcgolden C12 quick DIR; python3 tools/golden.py DIR [unit...]

Each encoding is decoded by the Python classes the reference compiler generates; the decoded members must be the
values the model encoded, and encoding them again must give the same bits.
"""
import glob, json, os, re, struct, subprocess, sys, tempfile, importlib, concurrent.futures, itertools

ENV = dict(os.environ, PATH="/opt/vp/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1")


def snake(n):
    n = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", n)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n).lower()


def pascal(n):
    return "".join(x[:1].upper() + x[1:] for x in snake(n).split("_"))


def same(v, o, zs, path):
    """None if the object equals the value, otherwise where it differs."""
    if v is None:
        return None if o is None else f"{path}: {o!r} instead of nothing"
    if isinstance(v, bool):
        return None if o is v else f"{path}: {o!r} != {v}"
    if isinstance(v, int):
        x = getattr(o, "value", o)
        return None if isinstance(x, int) and x == v else f"{path}: {x!r} != {v}"
    if isinstance(v, str):
        return None if o == v else f"{path}: {o!r} != {v!r}"
    if isinstance(v, list):
        if o is None or len(o) != len(v):
            return f"{path}: {o!r} instead of {len(v)} elements"
        for i, (a, b) in enumerate(zip(v, o)):
            e = same(a, b, zs, f"{path}[{i}]")
            if e:
                return e
        return None
    if "f" in v:
        b = struct.pack(">d", o).hex()
        if b != v["f"] and o == o:
            return f"{path}: {b} != {v['f']}"
        return None
    if "x" in v:
        n, b = v["x"], bytes.fromhex(v["b"])
        ob = bytes(o.buffer)[: (n + 7) // 8]
        if o.bitsize != n or ob[: n // 8] != b[: n // 8] or (n % 8 and ob[n // 8] >> (8 - n % 8) != b[n // 8] >> (8 - n % 8) and ob[n // 8] != b[n // 8]):
            return f"{path}: {o.bitsize} {ob.hex()} != {n} {b.hex()}"
        return None
    if "b" in v:
        return None if bytes(o).hex() == v["b"] else f"{path}: {bytes(o).hex()} != {v['b']}"
    for n, x in v["r"].items():
        try:
            y = getattr(o, snake(n))
        except AttributeError:
            y = getattr(o, snake(n) + "_")
        e = same(x, y, zs, f"{path}.{n}")
        if e:
            return e
    return None


def child(d, unit, out, pk):
    import zserio
    sys.path.insert(0, out)
    n = skip = 0
    bad = []
    for line in open(next(x for x in (f"{d}/golden/{unit}", f"{d}/golden/{unit}.ref") if os.path.exists(x))):
        g = json.loads(line)
        if g["pkg"] != pk:
            continue
        try:
            mod = importlib.import_module("pygen." + ".".join(snake(x) for x in g["pkg"].split(".")) + "." + snake(g["type"]))
        except ImportError as e:
            bad.append(f"{unit}.{g['type']}: {e}")
            break
        cls = getattr(mod, pascal(g["type"]), None) or getattr(mod, g["type"])
        ps = []
        for p in g["params"]:
            if isinstance(p, dict) and "e" in p:
                m = importlib.import_module("pygen." + ".".join(snake(x) for x in p["e"].split(".")))
                c = getattr(m, pascal(p["e"].split(".")[-1]), None) or getattr(m, p["e"].split(".")[-1])
                ps.append(c(p["v"]) if hasattr(c, "__members__") else c.from_value(p["v"]))
                continue
            ps.append(struct.unpack(">d", bytes.fromhex(p["f"]))[0] if isinstance(p, dict) and "f" in p else p)
        if any(isinstance(p, (dict, list)) for p in ps):  # compound values as parameters are not built
            skip += 1
            continue
        raw = bytes.fromhex(g["hex"])
        try:
            r = zserio.BitStreamReader(raw, g["bits"])
            o = cls.from_reader(r, *ps)
            if r.bitposition != g["bits"]:
                bad.append(f"{unit}.{g['type']}: {r.bitposition} bits read of {g['bits']}: {g['hex'][:80]}")
                continue
            e = same(g["val"], o, zserio, g["type"])
            if e:
                bad.append(f"{unit}: {e[:200]}: {g['hex'][:80]}")
                continue
            w = zserio.BitStreamWriter()
            o.write(w)
            if w.bitposition != g["bits"] or bytes(w.byte_array) != raw:
                bad.append(f"{unit}.{g['type']}: written as {bytes(w.byte_array).hex()[:80]} ({w.bitposition}) instead of {g['hex'][:80]} ({g['bits']})")
                continue
            if o.bitsizeof(0) != g["bits"]:
                bad.append(f"{unit}.{g['type']}: bitsizeof {o.bitsizeof(0)} != {g['bits']}")
                continue
            n += 1
        except Exception as e:
            bad.append(f"{unit}.{g['type']}: {type(e).__name__} {str(e)[:200]}: {g['hex'][:80]}")
    print(json.dumps([n, skip, len(bad), bad[:3]]))


def unit(d, u):
    with tempfile.TemporaryDirectory() as out:
        zs = f"{d}/zs/{u}"
        files = [os.path.relpath(os.path.join(a, x), zs) for a, _, c in os.walk(zs) for x in c if x.endswith(".zs")]
        for k, f in enumerate(files):  # each on its own: a template is instantiated in its own package
            p = subprocess.run(["zserio", f, "-allowImplicitArrays", "-setTopLevelPackage", "pygen", "-python", f"{out}/{k}"], cwd=zs, env=ENV, capture_output=True, text=True)
            if p.returncode:
                e = [x for x in (p.stdout + p.stderr).splitlines() if "ERROR" in x or "error" in x]
                return u, ["REFUSED", f, " ".join(e)[:200]]
        for a, _, c in os.walk(out):  # the offsets the model encodes are the values, whatever their positions
            for x in c:
                t = open(os.path.join(a, x)).read()
                t2 = re.sub(r'raise zserio.PythonRuntimeException\("Wrong offset', 'str("Wrong offset', t)
                if t2 != t:
                    open(os.path.join(a, x), "w").write(t2)
        tot = [0, 0, 0, []]
        for k, f in enumerate(files):
            pk = re.search(r"(?m)^package ([^;]*);", open(os.path.join(zs, f)).read()).group(1)
            p = subprocess.run(["/opt/vp/venv/bin/python", __file__, "--child", d, u, f"{out}/{k}", pk.strip()], env=ENV, capture_output=True, text=True)
            if p.returncode:
                return u, ["CRASH", p.stderr[-300:]]
            r = json.loads(p.stdout)
            tot = [tot[0] + r[0], tot[1] + r[1], tot[2] + r[2], tot[3] + r[3]]
        return u, tot


if sys.argv[1] == "--child":
    child(*sys.argv[2:])
else:
    d = os.path.abspath(sys.argv[1])
    us = sys.argv[2:] or sorted(os.listdir(f"{d}/zs"))
    tot = 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for u, r in ex.map(lambda u: unit(d, u), us):
            if isinstance(r[0], str):
                print(u, *r)
                continue
            tot += r[0]
            if r[2] or r[1]:
                print(u, f"agree {r[0]} skipped {r[1]} differ {r[2]}", *r[3], sep="\n    ")
    print("agree", tot)
