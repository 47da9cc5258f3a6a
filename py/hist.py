"""Exhaustive exploration of the small model spec/MCPoloDB.tla, and its histories run
against the real database: every history of a theme is enumerated by TLC, executed,
and its results are validated against PoloDB.tla."""
import json, random, re
from common import *

CFG = """SPECIFICATION MCSpec
CONSTANTS MaxSteps = %d
 Theme = "%s"
 Record = %s
VIEW MCView
CHECK_DEADLOCK FALSE
"""
PROPS = "INVARIANTS Inv CommittedIsSerial ViewIsOwn CursorOnce\nPROPERTY OnlyCommits\n"

def _run(ctx, theme, steps, record, more="", subst="", timeout=600):
    f = ctx.tmp("m.cfg")
    open(f, "w").write((CFG % (steps, theme, "TRUE" if record else "FALSE")).replace("CONSTANTS ", "CONSTANTS " + subst) + more)
    return tlc("MCPoloDB", cfg=f, timeout=timeout, mem="12g")

def model(ctx, theme, steps):
    """the properties hold of the specification"""
    rc, out, st = _run(ctx, theme, steps, False, PROPS)
    if rc != 0: raise ToolError("the specification contradicts its properties (%s):\n%s" % (theme, out[max(0, out.find("Error:")):][:3000]))
    ctx.tlc_done(st)
    ctx.extra.setdefault("small_models", []).append({"theme": theme, "calls": steps, "states": st["distinct"], "transitions": st["states"]})

def sharp(ctx, theme, steps, subst, what):
    """... and would not hold of one with a flaw"""
    rc, out, st = _run(ctx, theme, steps, False, PROPS, subst)
    if "is violated" not in out: raise ToolError("the properties do not notice %s: %s" % (what, out[-1500:]))
    ctx.extra.setdefault("flawed_models_refuted", []).append(what)

def histories(ctx, theme, steps):
    rc, out, st = _run(ctx, theme, steps, True, "CONSTRAINTS FirstBegin PrintHist\n")
    if rc != 0: raise ToolError("no histories:\n" + out[-2000:])
    ctx.tlc_done(st)
    return [json.loads(x) for x in sorted(set(json.loads('"%s"' % x) for x in re.findall(r'^"HIST (.*)"$', out, re.M)))]

def scripts(ctx, theme, steps, limit, base):
    hs = histories(ctx, theme, steps)
    tot = len(hs)
    if limit and tot > limit: hs = random.Random("%s/%s/%d" % (ctx.seed, theme, steps)).sample(hs, limit)
    ctx.extra.setdefault("histories", []).append({"theme": theme, "calls": steps, "all": tot, "run": len(hs)})
    return [{"id": base + i, "ops": h + [{"op": "dump"}]} for i, h in enumerate(hs)]

FLAWS = {"counter": ("Conflict <- NoConflict\n ", "transactions which ignore each other's writes"),
         "docs": ("Merge <- WholeView\n ", "a commit which puts the whole snapshot back"),
         "unique": ("CanCommit <- HastyCommit\n ", "a commit which does not look at unique indexes")}

def explore(ctx, themes):
    """-> the scripts of the histories of small models"""
    out = []
    for theme in themes:
        model(ctx, theme, 6 if ctx.quick() else 7)
        if theme in FLAWS: sharp(ctx, theme, 5, *FLAWS[theme])
        if ctx.quick(): out += scripts(ctx, theme, 6, 2500, len(out))
        else:
            out += scripts(ctx, theme, 5, None, len(out))
            out += scripts(ctx, theme, 6, 25000, len(out))
    return out
