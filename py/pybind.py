"""The Python binding (C20): scripts of which a part runs in the library and a part in Python, on one database."""
import collections, json, os, random, shutil, subprocess, sys
from common import *
from gen import Gen
import vj

PYTARGET = V + "/target/py"
PYTHON = "/opt/vp/venv/bin/python" if os.path.exists("/opt/vp/venv/bin/python") else sys.executable

def build_binding():
    """-> directory of the package, made of the working tree"""
    os.makedirs(V + "/work", exist_ok=True)
    lock = open(V + "/work/build_py.lock", "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp, log = V + "/work/py.stamp", V + "/work/build_py.log"
    h = tree_hash([REPO + "/src", REPO + "/py-polodb/src"]) + hashlib.sha256(open(REPO + "/py-polodb/Cargo.toml", "rb").read()).hexdigest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    os.environ.update(PYO3_PYTHON=PYTHON, PYO3_BUILD_EXTENSION_MODULE="1")
    if old != h and os.path.isdir(PYTARGET): cargo(REPO, ["clean", "--offline", "-p", "polodb_core", "-p", "py-binding-polodb"], log, PYTARGET)
    if cargo(REPO, ["build", "--offline", "--locked", "-p", "py-binding-polodb"], log, PYTARGET) != 0:
        raise ToolError("the binding does not build:\n" + open(log, errors="replace").read()[-3000:])
    open(stamp, "w").write(h)
    pkg = V + "/work/pypkg"
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(pkg + "/polodb")
    for f in os.listdir(REPO + "/py-polodb/polodb"):
        if f.endswith(".py"): shutil.copy(REPO + "/py-polodb/polodb/" + f, pkg + "/polodb/" + f)
    shutil.copy(PYTARGET + "/debug/librust_polodb.so", pkg + "/polodb/rust_polodb.so")
    lock.close()
    return pkg

OPS = {"insert_one", "insert_many", "find", "find_one", "update_one", "update_many", "delete_one", "delete_many", "aggregate", "count", "list", "dump", "reopen", "stale"}
ALIENS = ["null", "bytes", "date", "re", "tuple", "set", "object", "big", "neg", "huge", "half", "intkey", "cls"]
KNOWN = {"i", "l", "ix", "lx", "d", "dx", "s", "b", "o", "a"}
EXTRA = [-2 ** 63, 2 ** 63 - 1, 2 ** 53 + 1, 2 ** 31, -2 ** 31 - 1, 1e308, 5e-324, -0.0, float("nan"), float("inf"), True, "\0", "é\u0001", "\U0001F600", {"x": {"y": [{}]}}, [[], [[1.5]]], {"": 1}, "None"]

NATIVE = [vj.DT(253402300799999), vj.DT(253402300799999), vj.DT(-62135596800000), vj.DT(-62135596800000), vj.DT(253402300800000), vj.DT(-62135596800001), vj.DT(-1), vj.DT(1), vj.DT(-86400001), vj.DT(951782400123),
          vj.RE(("a.b", "i")), vj.RE(("^x", "imsx")), vj.RE(("é", "")), vj.BIN((0, bytes(range(256)))), vj.BIN((4, b"\0" * 16)), vj.TS((4294967295, 4294967295)), vj.OID(bytes(range(240, 252))), vj.SYM("é"), vj.JS("x"),
          vj.MIN, vj.MAX, vj.UND, vj.DEC(bytes(16)), 2147483647, -2147483648, vj.L(2147483648), None, [vj.DT(5), {"x": vj.OID(bytes(12))}], {"y": [None, vj.BIN((0, b""))]}]
ODDNAMES = ["t1", "tt", "T", "a b", "_", "日本", "é", "n" * 120, "t_1", "x-y", "$I", "a.b", "a\0b", "t\n", ""]

def native(ops, r):
    """values of types that only the library can store"""
    for o in ops:
        for d in ([o["doc"]] if "doc" in o else o.get("docs", [])):
            if r.random() < 0.25: d[1].append([["nat"], vj.j(r.choice(NATIVE))])
    return ops

class Py:
    """turns the operations of a generated script into calls of the binding"""
    def __init__(self, seed):
        self.r = random.Random(seed)
    def clean(self, v, p, d=0, x=True):
        """other types than those Python can pass: p of them become something it can not pass either"""
        t, r = v[0], self.r
        if t == "o": return ["o", [[k, self.clean(y, p, d + 1, x)] for k, y in v[1]]]
        if t == "a": return ["a", [self.clean(y, p, d + 1, x) for y in v[1]]]
        if t in KNOWN: return ["py", r.choice(ALIENS)] if d > 0 and r.random() < p / 10 else vj.j(r.choice(EXTRA)) if x and d > 1 and r.random() < 0.02 else v
        return ["py", r.choice(ALIENS)] if r.random() < p else vj.j(r.choice([0, 1, 2, "a", 1.0, False]))
    def doc(self, d, p):
        """a document to be inserted"""
        d = self.clean(d, p)
        r = self.r
        fs = [f for f in d[1] if f[0] != ["_id"] or f[1][0] != "py"]
        if r.random() < 0.3: fs.append([[r.choice(["v", "w", "é k", "$v"[1:]])], vj.j(r.choice(EXTRA))])
        return ["o", fs]
    def call(self, o):
        r, n = self.r, o["op"]
        if n == "create_coll": return [dict(self.named(o), op="py_coll", how=r.choice(["item", "attr", "call"]))]
        if n not in OPS: return []
        if n == "reopen": return [{"op": "reopen", "how": r.choice(["with", "call"])}]
        if n in ("list", "dump", "stale"): return [{"op": n}]
        e = dict(self.named(o), op=n, how=r.choice(["item", "attr", "call"]))
        if r.random() < 0.25: e["raw"] = 1
        p = 0.9 if r.random() < 0.06 else 0
        for k in ("q", "u"):
            if k in o: e[k] = self.clean(o[k], p, 0, k == "q")
        if "doc" in o: e["doc"] = self.doc(o["doc"], p)
        if "docs" in o: e["docs"] = [self.doc(d, p) for d in o["docs"]]
        if "pipe" in o: e["pipe"] = [self.clean(d, p, 0, False) for d in o["pipe"]]
        if p and r.random() < 0.2:
            for k in ("docs", "pipe"):
                if k in e and e[k]: e[k][r.randrange(len(e[k]))] = r.choice([["l", 1], ["py", "null"], ["a", []]])
        out = [e]
        if r.random() < 0.03: out.append({"op": "busy", "raw": r.randint(0, 1)})
        if r.random() < 0.03:
            c = r.choice(ODDNAMES)
            x = {"op": "py_coll", "c": c, "how": r.choice(["item", "attr", "call"])}
            if c and not (c.isascii() and c.replace("_", "").isalnum()): x["cb"] = list(c.encode())
            out += [x, {"op": "list"}]
        return out
    def named(self, o): return {k: o[k] for k in ("c", "cb") if k in o}

def script(seed, i):
    g = Gen("%s/py/%d" % (seed, i), "py")
    ops = g.trace()
    r = random.Random("%s/pycut/%d" % (seed, i))
    cut = r.choice([0, 0, r.randint(0, len(ops) // 2), r.randint(1, 4)])
    p = Py("%s/pyops/%d" % (seed, i))
    pyops = [{"op": "reopen", "how": r.choice(["with", "call"])}]
    for o in ops[cut:]: pyops += p.call(o)
    return {"id": i, "ops": native(ops[:cut], r), "pyops": pyops}

def drive(ctx, pkg, scripts, timeout=300):
    """the Python part, in 8 processes -> {id: [events]}, None if it died"""
    env = dict(os.environ, PYTHONPATH=pkg, PYTHONDONTWRITEBYTECODE="1")
    def start(part):
        inp, outp = ctx.tmp("pin"), ctx.tmp("pout")
        with open(inp, "w") as f:
            for s in part: f.write(json.dumps(s) + "\n")
        return subprocess.Popen([PYTHON, V + "/py/pydrive.py", inp, outp], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=limit), outp
    def end(p, outp, timeout):
        try:
            _, err = p.communicate(timeout=timeout)
            why = "the process died (exit %d) %s" % (p.returncode, err.decode(errors="replace")[-300:])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            why = "hangs"
        res = {}
        for l in open(outp, errors="replace") if os.path.exists(outp) else []:
            try:
                x = json.loads(l)
                res[x["id"]] = x["ev"]
            except ValueError: pass
        return res, why
    ps = [start(scripts[k::8]) for k in range(8)]
    res, why = {}, ""
    for p, o in ps:
        r, w = end(p, o, timeout)
        res.update(r)
        if not w.startswith("the process died (exit 0)"): why = w
    for s in [s for s in scripts if s["id"] not in res]:
        res[s["id"]] = why or "no result"
    return res

def run(ctx, pkg, scripts):
    root = ctx.tmp("pydb")
    os.makedirs(root)
    for s in scripts: s["at"] = "%s/%d" % (root, s["id"])
    first = run_harness(ctx, [{"id": s["id"], "at": s["at"], "ops": s["ops"]} for s in scripts])
    ok = [s for s in scripts if "ev" in first.get(s["id"], {}) and not any(e["r"]["k"] == "panic" for e in first[s["id"]]["ev"])]
    mid = drive(ctx, pkg, ok)
    # scripts after the one that killed the process did not run
    lost = [s for s in ok if not isinstance(mid[s["id"]], list)]
    traces, alive = [], []
    for s in ok:
        if isinstance(mid[s["id"]], list): alive.append(s)
    for s in lost[:16]:
        shutil.rmtree(s["at"], ignore_errors=True)
        run_harness(ctx, [{"id": s["id"], "at": s["at"], "ops": s["ops"]}])
        m = drive(ctx, pkg, [s], 30)[s["id"]]
        if isinstance(m, list):
            mid[s["id"]] = m
            alive.append(s)
        else: traces.append({"id": s["id"], "died": "in Python: " + m, "ops": s["pyops"]})
    last = run_harness(ctx, [{"id": s["id"], "at": s["at"], "ops": [{"op": "dump"}]} for s in alive])
    for s in alive:
        i = s["id"]
        if "ev" not in last.get(i, {}): traces.append({"id": i, "died": "afterwards", "ops": s["pyops"]}); continue
        traces.append({"id": i, "ev": first[i]["ev"] + mid[i] + [{"op": "reopen", "r": {"k": "ok"}}] + last[i]["ev"]})
    for s in scripts:
        if s not in ok: traces.append(first.get(s["id"]) or {"id": s["id"], "died": "no result", "ops": s["ops"]})
    shutil.rmtree(root, ignore_errors=True)
    return traces
