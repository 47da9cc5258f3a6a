"""What all checks share: building, running the harness, validating traces, evidence."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from tlc import tlc, TlcError

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = V + "/target"
HARNESS = TARGET + "/debug/vharness"

class ToolError(Exception):
    pass

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for d, ds, fs in sorted(os.walk(p)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "__pycache__"))
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode() + b"\0")
                try:
                    h.update(open(q, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()

def cargo(cwd, args, log, target=None):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target or TARGET)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"): env.pop(k, None)
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    open(log, "wb").write(p.stdout)
    return p.returncode

def build(ctx=None, crate="harness"):
    """Build the harness from the working tree of the repository.  Cargo looks at
    modification times; the hash of the sources makes sure of a changed tree."""
    os.makedirs(V + "/work", exist_ok=True)
    lock = open(V + "/work/build.lock", "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = V + "/work/%s.stamp" % crate
    h = tree_hash([REPO + "/src", V + "/" + crate + "/src"]) + hashlib.sha256(open(REPO + "/Cargo.toml", "rb").read()).hexdigest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    log = V + "/work/build.log"
    if old != h:
        pk = ["-p", "polodb_core", "-p", "polodb_line_diff", "-p", "vharness"]
        if os.path.isdir(TARGET): cargo(V + "/" + crate, ["clean", "--offline"] + pk, log)
    if cargo(V + "/" + crate, ["build", "--offline"], log) != 0:
        raise ToolError("the harness does not build:\n" + open(log, errors="replace").read()[-3000:])
    open(stamp, "w").write(h)
    lock.close()

SERVER_TARGET = V + "/target/server"
SERVER = SERVER_TARGET + "/debug/polodb"
def build_server():
    """The server, from the repository's own workspace"""
    os.makedirs(V + "/work", exist_ok=True)
    lock = open(V + "/work/build_server.lock", "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp, log = V + "/work/server.stamp", V + "/work/build_server.log"
    h = tree_hash([REPO + "/src"]) + hashlib.sha256(open(REPO + "/Cargo.toml", "rb").read()).hexdigest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h and os.path.isdir(SERVER_TARGET): cargo(REPO, ["clean", "--offline", "-p", "polodb_core", "-p", "polodb"], log, SERVER_TARGET)
    if cargo(REPO, ["build", "--offline", "--locked", "-p", "polodb"], log, SERVER_TARGET) != 0:
        raise ToolError("the server does not build:\n" + open(log, errors="replace").read()[-3000:])
    open(stamp, "w").write(h)
    lock.close()
    os.environ["VERIF_SERVER"] = SERVER

SHIM = TARGET + "/crashlog.so"
def build_shim():
    os.makedirs(TARGET, exist_ok=True)
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", SHIM + ".%d" % os.getpid(), V + "/shim/crashlog.c", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise ToolError("the shim does not build: " + p.stdout.decode())
    os.rename(SHIM + ".%d" % os.getpid(), SHIM)
    os.environ["VERIF_SHIM"] = SHIM

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.extra, self.known = [], [], {}, []
        self.dir = tempfile.mkdtemp(prefix="vc_" + prop + "_", dir="/dev/shm")
        self.n = 0
    def quick(self): return self.tier == "quick"
    def tmp(self, name):
        self.n += 1
        return "%s/%d_%s" % (self.dir, self.n, name)
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def violation(self, what, data):
        os.makedirs(V + "/work/replay", exist_ok=True)
        f = V + "/work/replay/%s-%d-%d.json" % (self.prop, self.seed, len(self.violations))
        data = dict(data, property=self.prop, what=what, seed=self.seed, tier=self.tier)
        json.dump(data, open(f, "w"), indent=1)
        self.violations.append((what, f))
        print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)
        print("  " + what[:1500].replace("\n", "\n  "), flush=True)
    def tlc_done(self, st):
        self.states += st["distinct"]
        self.transitions += st["states"]

# ------------------------------------------------------------------- the harness
def limit():
    """code that eats all memory or disk ends by itself, and not other processes"""
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (3 << 30, 3 << 30))

def run_harness(ctx, scripts, mode="exec", timeout=240, args=(), binary=None, again=1):
    """Execute the scripts; -> {id: trace}.  A script during which the process dies
    or hangs is a finding: its trace is {"id", "died": ...}."""
    inp, outp, db = ctx.tmp("in"), ctx.tmp("out"), ctx.tmp("db")
    byid = {s["id"]: s for s in scripts}
    with open(inp, "w") as f:
        for s in scripts: f.write(json.dumps(s) + "\n")
    def go(inp, outp, timeout):
        p = subprocess.Popen([binary or HARNESS, mode, inp, outp, db] + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=limit)
        try:
            _, err = p.communicate(timeout=timeout)
            why = None if p.returncode == 0 else "the process died (exit %d) %s" % (p.returncode, err.decode(errors="replace")[-300:])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            why = "hangs (no result after %d s)" % timeout
        shutil.rmtree(db, ignore_errors=True)
        res = {}
        if os.path.exists(outp):
            for l in open(outp, errors="replace"):
                try:
                    x = json.loads(l)
                    res[x["id"]] = x
                except ValueError:
                    pass
        return res, why
    res, why = go(inp, outp, timeout)
    missing = [i for i in byid if i not in res]
    if why and not missing and why.startswith("hangs"): raise ToolError("harness: " + why)
    # one at a time, to find out which of them it was
    tries = 0
    t0 = time.time()
    while missing:
        dead = []
        batch, missing = missing, []
        if len(batch) > 40:      # the ones not started yet
            inp2, outp2 = ctx.tmp("in"), ctx.tmp("out")
            with open(inp2, "w") as f:
                for i in batch[20:]: f.write(json.dumps(byid[i]) + "\n")
            r2, why2 = go(inp2, outp2, timeout)
            res.update(r2)
            missing = [i for i in batch[20:] if i not in res]
            batch = batch[:20]
        for i in batch:
            inp2, outp2 = ctx.tmp("in"), ctx.tmp("out")
            open(inp2, "w").write(json.dumps(byid[i]) + "\n")
            for _ in range(again):
                r2, why2 = go(inp2, outp2, 25)
                if i not in r2: break
            if i in r2: res[i] = r2[i]
            else: res[i] = {"id": i, "died": why2 or why or "no result", "ops": byid[i].get("ops")}
            if time.time() - t0 > 200:
                for k in batch + missing: res.setdefault(k, None)
                return {k: v for k, v in res.items() if v}
        tries += 1
        if tries > 5: break
    return res

# ------------------------------------------------------------- trace validation
def validate(ctx, traces, module="PoloTrace", env=None, timeout=800, mem="8g"):
    """-> [(trace, longest matched prefix)] for those which are not behaviours"""
    bad = [(t, -1) for t in traces if "died" in t]
    ts = [t for t in traces if "died" not in t]
    ok, errs = _batch(ctx, ts, module, env, timeout, mem)
    rej = [t for t in ts if t["id"] not in ok]
    if errs and rej:
        # some results can not even be evaluated: look at them separately
        again = []
        for t in rej if len(rej) <= 12 else bisect(ctx, rej, module, env, timeout, mem):
            o, e = _batch(ctx, [t], module, env, timeout, mem, stats=False)
            if t["id"] not in o: again.append(t)
        rej = again
    ctx.traces += len(traces)
    if rej:
        at = progress(ctx, rej[:30], module, env)
        bad += [(t, at.get(t["id"], 0)) for t in rej[:30]]
    return bad

def bisect(ctx, ts, module, env, timeout, mem):
    if len(ts) <= 8: return ts
    h = len(ts) // 2
    out = []
    for part in (ts[:h], ts[h:]):
        ok, e = _batch(ctx, part, module, env, timeout, mem, stats=False)
        left = [t for t in part if t["id"] not in ok]
        if e and left: out += bisect(ctx, left, module, env, timeout, mem)
        else: out += left[:3]
        if len(out) >= 8: break
    return out

def _batch(ctx, ts, module, env, timeout, mem, stats=True):
    if not ts: return set(), None
    f = ctx.tmp("tr")
    with open(f, "w") as o:
        for t in ts: o.write(json.dumps(t) + "\n")
    rc, out, st = tlc(module, env=dict({"TRACES": f, "PROGRESS": "0"}, **(env or {})), timeout=timeout, mem=mem)
    os.unlink(f)
    if stats:
        ctx.tlc_done(st)
        n = len(set(re.findall(r'"TRACE_UNSURE (\d+)"', out)))
        if n: ctx.extra["not_judged_to_the_end"] = ctx.extra.get("not_judged_to_the_end", 0) + n
    ok = {int(x) for x in re.findall(r'"TRACE_OK (\d+)"', out)}
    err = None if rc == 0 else out[max(0, out.find("Error:")):][:3000]
    if rc != 0 and ("Parsing or semantic" in out or "OutOfMemory" in out or "StackOverflow" in out or "is violated" in out):
        raise ToolError("TLC: " + err)
    return ok, err

def progress(ctx, ts, module, env):
    at = {}
    for t in ts:
        f = ctx.tmp("tr")
        open(f, "w").write(json.dumps(t) + "\n")
        try:
            rc, out, st = tlc(module, env=dict({"TRACES": f, "PROGRESS": "1"}, **(env or {})), timeout=60)
        except TlcError:
            continue
        os.unlink(f)
        at[t["id"]] = max([int(b) - 1 for a, b in re.findall(r'"TRACE_AT (\d+) (\d+)"', out)] or [0])
        if len(at) >= 5: break
    return at

# -------------------------------------------------------------------- evidence
def write_evidence(ctx, level, cov, assumptions):
    os.makedirs(V + "/evidence", exist_ok=True)
    if level == "model_checking":
        base = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces, samples=ctx.samples[:3])
    else:
        base = dict(samples=ctx.samples[:3])
    base.update(cov)
    base.update(ctx.extra)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=base, assumptions=assumptions,
              wall_s=round(time.time() - ctx.t0, 1), violations=len(ctx.violations))
    json.dump(ev, open(V + "/evidence/%s.json" % ctx.prop, "w"), indent=1)
