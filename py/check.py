"""The checks, one per property:  check ID [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored; 1: a VIOLATION line was printed;
2: the check itself failed."""
import argparse, collections, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from gen import Gen
import vj

A_COMMON = ["the specification in /verif/spec says what the property says",
            "the harness records calls and results faithfully (it only calls the public API)",
            "TLC and the JSON module evaluate the specification correctly"]

# what random scripts each property is validated on: profile -> number in the quick tier
PROFILES = {
    "C02": {"atomic": 800, "txn": 450, "recreate": 120, "dropin": 100},
    "C03": {"txn": 1000, "dropin": 400, "cursor": 150},
    "C04": {"atomic": 1250, "invalid": 300, "txn": 100},
    "C06": {"insert": 1500, "atomic": 100, "txn": 100},
    "C07": {"find": 1700, "delete": 150, "index": 150, "cursor": 80},
    "C08": {"update": 1600, "invalid": 120, "index": 100, "txn": 100},
    "C09": {"delete": 1400, "index": 200, "txn": 120, "unique": 100},
    "C10": {"index": 1450, "unique": 120, "dropin": 250, "update": 80},
    "C11": {"unique": 1500, "atomic": 150, "recreate": 100, "dropin": 150},
    "C12": {"colls": 1050, "recreate": 500, "dropin": 200, "txn": 100},
    "C13": {"sort": 1400, "agg": 120, "index": 80, "cursor": 80},
    "C14": {"agg": 1600, "sort": 100, "txn": 100},
    "C15": {"cursor": 1700, "txn": 120},
    "C16": {"invalid": 1500, "atomic": 200, "agg": 100, "update": 100},
}

def idle(ops, ms):
    """Time passes while as much as possible is open."""
    n, best, at = 0, 0, None
    for k, o in enumerate(ops):
        if o["op"] in ("begin", "cur_open") or o.get("start") or "batch" in o and o["op"] in ("find", "aggregate"): n += 1
        elif o["op"] in ("commit", "abort", "rollback", "abandon", "cur_close"): n -= 1
        elif o["op"] in ("reopen", "restart"): n = 0
        if n > best and not o.get("pipe_next") and not o.get("nore"): best, at = n, k
    if at is not None: ops.insert(at + 1, {"op": "idle", "ms": ms})

def script(seed, prof, i, ms=0):
    ops = Gen("%s/%s/%d" % (seed, prof, i), prof).trace()
    if ms and prof in ("txn", "cursor") and i < 4: idle(ops, ms)
    return {"id": i, "prof": prof, "ops": ops}

def describe(t, at):
    if "died" in t: return "the database %s\n%s" % (t["died"], "\n".join(json.dumps(o)[:300] for o in (t.get("ops") or [])[-6:]))
    ev = t["ev"]
    k = max(0, min(at, len(ev) - 1))
    return "call %d of %d has a result which the specification does not allow:\n%s\nbefore it:\n%s" % (
        k + 1, len(ev), json.dumps(vj.show_ev(ev[k]), ensure_ascii=False)[:900],
        "\n".join(json.dumps(vj.show_ev(e), ensure_ascii=False)[:400] for e in ev[max(0, k - 5):k]))

def report(ctx, bad, limit=3):
    for t, at in bad[:limit]:
        ctx.violation(describe(t, at), {"kind": "trace", "matched": at, "trace": t, "show": [vj.show_ev(e) for e in t.get("ev", [])]})

def traces(ctx, profiles, factor=1):
    scripts, nid = [], 0
    per = {}
    for prof, n in profiles.items():
        for i in range(int(n * factor)):
            s = script(ctx.seed, prof, i, 4000 if ctx.quick() else 65000)
            s["id"] = nid; nid += 1
            scripts.append(s)
    ops = collections.Counter()
    kinds = collections.Counter()
    for k in range(0, len(scripts), 2500):
        part = scripts[k:k + 2500]
        tr = run_harness(ctx, part)
        for t in tr.values():
            for e in t.get("ev", []):
                ops[e["op"]] += 1
                kinds[e["op"] + ":" + e["r"]["k"]] += 1
        if not ctx.samples:
            ctx.samples = [[vj.show_ev(e) for e in t["ev"][:8]] for t in list(tr.values())[:2] if "ev" in t]
        report(ctx, validate(ctx, list(tr.values())))
        if ctx.violations: break
        if time.time() - ctx.t0 > (600 if ctx.quick() else 7200): break
    ctx.extra["scripts"] = {p: int(n * factor) for p, n in profiles.items()}
    ctx.extra["calls"] = dict(ops)
    ctx.extra["outcomes"] = dict(kinds)
    # vacuity: every kind of call the profile is about must have occurred
    for prof in profiles:
        if not ctx.violations and len(scripts) >= 300:
            from gen import PROFILES as GP
            miss = [o for o, w in GP[prof]["ops"].items() if w >= 1 and o not in ops and o != "cur_drain"]
            if miss: raise ToolError("the scripts of %s never call %s" % (prof, miss))

# the small models whose histories are run as well
THEMES = {"C02": ["docs", "meta"], "C03": ["counter", "docs", "meta"], "C11": ["unique"], "C15": ["cursor"]}

def check_hist(ctx):
    import hist
    scripts = hist.explore(ctx, THEMES[ctx.prop])
    for k in range(0, len(scripts), 5000):
        if ctx.violations: break
        report(ctx, validate(ctx, list(run_harness(ctx, scripts[k:k + 5000], args=["32"], timeout=500).values())))

def check_core(ctx):
    build(ctx)
    if ctx.prop in THEMES: check_hist(ctx)
    if not ctx.violations: traces(ctx, PROFILES[ctx.prop], 1 if ctx.quick() else 12)
    return "model_checking", {}, A_COMMON

CHECKS = {p: check_core for p in PROFILES}

def check_linediff(ctx):
    import linediff
    build(ctx)
    return linediff.check(ctx)
CHECKS["C21"] = check_linediff

def show_conc(t):
    out = ["setup: " + json.dumps(vj.show_ev(e), ensure_ascii=False)[:300] for e in t["setup"]]
    for i, th in enumerate(t["th"]):
        out += ["thread %d [%d-%d]: %s" % (i + 1, e["call"], e["ret"], json.dumps({k: v for k, v in vj.show_ev(e).items() if k not in ("call", "ret")}, ensure_ascii=False)[:300]) for e in th]
    return "\n".join(out + ["finally: " + json.dumps(vj.show_ev(e), ensure_ascii=False)[:300] for e in t["fin"]])

def check_conc(ctx):
    import conc
    build(ctx)
    n = 2600 if ctx.quick() else 15000
    kinds, over, tot = collections.Counter(), 0, 0
    for k in range(0, n, 1500):
        tr = run_harness(ctx, [conc.script(ctx.seed, i) for i in range(k, min(n, k + 1500))], mode="conc", again=4)
        for t in tr.values():
            if "died" in t: continue
            kinds[t["kind"]] += 1
            over += conc.overlaps(t)
            tot += sum(len(x) for x in t["th"])
        bad = validate(ctx, list(tr.values()), module="ConcTrace")
        for t, at in bad[:3]:
            if "died" in t: ctx.violation("threads: the database %s" % t["died"], {"kind": "conc", "trace": t})
            else: ctx.violation("no order of the calls explains these results (matched %d of them):\n%s" % (at - 1, show_conc(t)), {"kind": "conc", "trace": t})
        if not ctx.samples and tr: ctx.samples = [show_conc(t).split("\n") for t in list(tr.values())[:2] if "th" in t]
        if ctx.violations: break
    ctx.extra.update(kinds=dict(kinds), concurrent_calls=tot, overlapping_pairs=over)
    if not ctx.violations and over < tot // 4: raise ToolError("the threads hardly overlapped: %d pairs of %d calls" % (over, tot))
    return "model_checking", {}, A_COMMON + ["the schedules are those which the operating system produced"]
CHECKS["C05"] = check_conc

def check_crash(ctx):
    import crash
    build(ctx)
    build_shim()
    n = 1400 if ctx.quick() else 14000
    kinds, modes = collections.Counter(), collections.Counter()
    for k in range(0, n, 1400):
        sc = {i: crash.script(ctx.seed, i) for i in range(k, min(n, k + 1400))}
        tr = list(run_harness(ctx, list(sc.values()), mode="crash", timeout=500).values())
        for t in tr:
            for e in t.get("ev", []):
                if e["op"] == "crash":
                    modes[e["mode"]] += 1
                    kinds[e["f"]["op"] if "f" in e else "between operations"] += 1
        if not ctx.samples: ctx.samples = [[vj.show_ev(e) for e in t["ev"][:8]] for t in tr[:2] if "ev" in t]
        for t, at in validate(ctx, tr)[:3]:
            ctx.violation("after a crash: " + describe(t, at), {"kind": "crash", "matched": at, "trace": t, "script": sc[t["id"]], "show": [vj.show_ev(e) for e in t.get("ev", [])]})
        if ctx.violations: break
    ctx.extra.update(crashes_during=dict(kinds), disk_states=dict(modes))
    if not ctx.violations and (sum(kinds.values()) < n or min(kinds[x] for x in ("insert_many", "update_many", "commit", "create_index")) < 10):
        raise ToolError("too few crashes: %s" % kinds)
    return "model_checking", {}, A_COMMON + ["a power failure keeps what was synced and any prefix of what was appended to a file since", "the file operations of the process are those which the shim intercepts"]
CHECKS["C01"] = check_crash

def gone(t):
    """the server is not heard of any more"""
    return "died" in t or any(e["r"]["k"] == "dead" for l in [t.get("ev", []), t.get("setup", []), t.get("fin", [])] + t.get("th", []) for e in l)

def run_server(ctx, scripts, mode, tries):
    """Run the scripts.  If a few of the servers go away, it may be the sandbox (memory,
    processes): only those count for which it happens again."""
    res = run_harness(ctx, scripts, mode=mode, timeout=400, again=2)
    bad = [i for i in res if gone(res[i])]
    if len(bad) > 12: return list(res.values())
    byid = {s["id"]: s for s in scripts}
    for i in bad:
        for _ in range(tries):
            t = run_harness(ctx, [byid[i]], mode=mode, timeout=120)[i]
            if gone(t): break
        if not gone(t):
            print("note: the server of script %d went away once, and not again: %s" % (i, str(res[i].get("died") or res[i].get("fate"))[:300]))
            ctx.extra["went_away_once"] = ctx.extra.get("went_away_once", 0) + 1
        res[i] = t
    return list(res.values())

# several connections at the same time
WCONC = {"C17": {"count": 160, "crud": 160}, "C18": {"cursor": 300}, "C19": {"session": 240}}

def check_wconc(ctx):
    import wire, conc
    scripts = []
    for kind, n in WCONC[ctx.prop].items():
        scripts += [dict(wire.conc_script(ctx.seed, kind, i), id=len(scripts) + i) for i in range(n if ctx.quick() else 10 * n)]
    kinds, over, tot = collections.Counter(), 0, 0
    for k in range(0, len(scripts), 500):
        tr = run_server(ctx, scripts[k:k + 500], "wconc", 6)
        for t in tr:
            if "died" in t: continue
            over += conc.overlaps(t)
            tot += sum(len(x) for x in t["th"])
            for th in t["th"]:
                for e in th: kinds[e["op"] + ":" + e["r"]["k"]] += 1
        for t, at in validate(ctx, tr, module="ServerConcTrace")[:3]:
            if "died" in t: ctx.violation("connections at the same time: the server %s" % t["died"], {"kind": "wconc", "trace": t, "script": scripts[t["id"]]})
            else: ctx.violation("no order of the commands explains these replies (matched %d of them):\n%s" % (at - 1, show_conc(t)), {"kind": "wconc", "trace": t, "script": scripts[t["id"]]})
        if ctx.violations: return
    ctx.extra.update(concurrent_scripts=WCONC[ctx.prop], concurrent_replies=dict(kinds), overlapping_pairs=over)
    if over < tot // 4: raise ToolError("the connections hardly overlapped: %d pairs of %d commands" % (over, tot))

WIRE = {"C17": {"w_crud": 1000, "w_session": 100}, "C18": {"w_cursor": 900, "w_crud": 100}, "C19": {"w_session": 900}, "C22": {"w_bytes": 800}}

def check_wire(ctx):
    import wire
    build(ctx)
    build_server()
    scripts = []
    for prof, n in WIRE[ctx.prop].items():
        scripts += [wire.script(ctx.seed, prof, i) for i in range(n if ctx.quick() else 10 * n)]
    for i, s in enumerate(scripts):
        s["id"] = i
        if i < 4 and ctx.prop != "C22": idle(s["ops"], 12000 if ctx.quick() else 65000)
    kinds = collections.Counter()
    for k in range(0, len(scripts), 1000):
        tr = [wire.finish(t) for t in run_server(ctx, scripts[k:k + 1000], "wire", 2)]
        for t in tr:
            for e in t.get("ev", []): kinds[e["op"] + ":" + e["r"]["k"]] += 1
        if not ctx.samples: ctx.samples = [[vj.show_ev(e) for e in t["ev"][:8]] for t in tr[:2] if "ev" in t]
        for t, at in validate(ctx, tr, module="ServerTrace")[:3]:
            ctx.violation(("the server: " if "died" in t else "") + describe(t, at), {"kind": "wire", "matched": at, "trace": t, "script": scripts[t["id"]], "show": [vj.show_ev(e) for e in t.get("ev", [])]})
        if ctx.violations: break
    ctx.extra.update(scripts=WIRE[ctx.prop], replies=dict(kinds))
    if not ctx.violations:
        need = {"C17": ["insert:ok", "update:ok", "delete:ok", "find:ok", "aggregate:ok", "raw:err"], "C18": ["getmore:ok", "getmore:err", "kill:ok"], "C19": ["commit:ok", "abort:ok", "commit:err"],
                "C22": ["insert:closed", "insert:ok", "find:closed", "update:err", "flood:ok"]}[ctx.prop]
        miss = [x for x in need if kinds[x] < 20]
        if miss: raise ToolError("hardly any " + ", ".join(miss))
    if not ctx.violations and ctx.prop in WCONC: check_wconc(ctx)
    return "model_checking", {}, A_COMMON + ["the schedules of the server's tasks are those which the operating system produced"]
for _p in WIRE: CHECKS[_p] = check_wire

def check_py(ctx):
    import pybind
    build(ctx)
    pkg = pybind.build_binding()
    n = 1500 if ctx.quick() else 15000
    kinds = collections.Counter()
    for k in range(0, n, 1500):
        sc = {i: pybind.script(ctx.seed, i) for i in range(k, min(n, k + 1500))}
        tr = pybind.run(ctx, pkg, list(sc.values()))
        for t in tr:
            for e in t.get("ev", []): kinds[("python " if "py" in e else "library ") + e["op"] + ":" + e["r"]["k"]] += 1
        if not ctx.samples: ctx.samples = [[vj.show_ev(e) for e in t["ev"][:8]] for t in tr[:2] if "ev" in t]
        for t, at in validate(ctx, tr, module="PyTrace")[:3]:
            ctx.violation(describe(t, at), {"kind": "py", "matched": at, "trace": t, "script": sc[t["id"]], "show": [vj.show_ev(e) for e in t.get("ev", [])]})
        if ctx.violations: break
    ctx.extra.update(scripts=n, calls=dict(kinds))
    if not ctx.violations:
        miss = [o for o in ("insert_one", "insert_many", "find", "find_one", "aggregate", "update_one", "update_many", "delete_one", "delete_many", "py_coll") for x in ("ok", "err") if kinds["python %s:%s" % (o, x)] < 20]
        if miss: raise ToolError("hardly any " + ", ".join(miss))
    return "model_checking", {}, A_COMMON
CHECKS["C20"] = check_py

def replay(ctx, f):
    d = json.load(open(f))
    build(ctx)
    if d["kind"] == "crash":
        import crash
        build_shim()
        for t, at in validate(ctx, list(run_harness(ctx, [d["script"]], mode="crash").values())): ctx.violation(describe(t, at), dict(d, trace=t))
        return
    if d["kind"] == "wire":
        import wire
        build_server()
        tr = [wire.finish(t) for t in run_harness(ctx, [d["script"]], mode="wire").values()]
        for t, at in validate(ctx, tr, module="ServerTrace"): ctx.violation(describe(t, at), dict(d, trace=t))
        return
    if d["kind"] == "wconc":
        import wire
        build_server()
        # the schedule can not be repeated: judge the recorded one again, and try the script anew
        if "th" in d["trace"]:
            for t, at in validate(ctx, [d["trace"]], module="ServerConcTrace"): ctx.violation("recorded replies:\n" + show_conc(t), d)
        for i in range(100):
            for t, at in validate(ctx, list(run_harness(ctx, [d["script"]], mode="wconc").values()), module="ServerConcTrace"):
                ctx.violation("once more:\n" + (show_conc(t) if "th" in t else t["died"]), d)
            if len(ctx.violations) > 1: break
        return
    if d["kind"] == "py":
        import pybind
        pkg = pybind.build_binding()
        for t, at in validate(ctx, pybind.run(ctx, pkg, [d["script"]]), module="PyTrace"): ctx.violation(describe(t, at), dict(d, trace=t))
        return
    if d["kind"] == "linediff":
        import linediff
        return linediff.replay(ctx, d)
    t = d["trace"]
    if d["kind"] == "conc":
        import conc
        # the schedule can not be repeated: judge the recorded one again, and try the script anew
        if "th" in t:
            for t2, at in validate(ctx, [t], module="ConcTrace"): ctx.violation("recorded results:\n" + show_conc(t2), d)
        s = conc.script(d["seed"], t["id"])
        for i in range(200):
            for t2, at in validate(ctx, list(run_harness(ctx, [s], mode="conc", again=4).values()), module="ConcTrace"):
                ctx.violation("once more:\n" + (show_conc(t2) if "th" in t2 else t2["died"]), d)
            if len(ctx.violations) > 1: break
        return
    if "ops" not in t: t = {"id": t["id"], "ops": [{k: v for k, v in e.items() if k != "r"} for e in t["ev"]]}
    tr = run_harness(ctx, [t])
    report(ctx, validate(ctx, list(tr.values())))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.setup:
        build()
        build_server()
        build_shim()
        import pybind
        pybind.build_binding()
        return 0
    ctx = Ctx(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            replay(ctx, a.replay)
        else:
            level, cov, asm = CHECKS[a.prop](ctx)
            write_evidence(ctx, level, cov, asm)
    except (ToolError, TlcError) as x:
        if not ctx.violations:
            print("ERROR: %s" % x)
            return 2
    except Exception:
        traceback.print_exc()
        if not ctx.violations: return 2
    finally:
        ctx.close()
    print("%s %s: %d traces, %d states, %.0f s, %d violations" % (ctx.prop, ctx.tier, ctx.traces, ctx.states, time.time() - ctx.t0, len(ctx.violations)))
    return 1 if ctx.violations else 0

sys.exit(main())
