"""C21: the edit scripts of polodb_line_diff against LineDiff.tla."""
import itertools, json, os, random, re, subprocess
from common import *

HEAD = re.compile(r"@@ (\d+)$")
def parse(text):
    """the rendering of one difference -> hunk; None if it has another form"""
    lines = text.split("\n")
    if lines[-1] != "": return None
    m = HEAD.match(lines[0])
    if not m: return None
    plus, minus = [], []
    for l in lines[1:-1]:
        if l.startswith("\x1b[32m+ ") and l.endswith("\x1b[0m"): plus.append(l[7:-4])
        elif l.startswith("\x1b[31m- ") and l.endswith("\x1b[0m"): minus.append(l[7:-4])
        else: return None
    return int(m.group(1)), minus, plus

def cases(seed, quick):
    out = []
    def add(a, b, sep="\n"): out.append((sep.join(a), sep.join(b)))
    for k, n in ((2, 4), (3, 3)) if quick else ((2, 6), (3, 4), (4, 3)):
        texts = [t for m in range(1, n + 1) for t in itertools.product("abcd"[:k], repeat=m)]
        for a in texts:
            for b in texts: add(a, b)
    r = random.Random("%s/linediff" % seed)
    def near(l):
        if not l: return r.choice([" ", "\t", "\r", "a"])
        i = r.randrange(len(l))
        return r.choice([l[:i] + r.choice("xyzé \t") + l[i + 1:], l[:i] + r.choice("ab ") + l[i:], l[:i] + l[i + 1:], l.swapcase(), l[::-1], l + r.choice([" ", "\r", "\0"]), " " + l])
    for i in range(300 if quick else 3000):   # lines that differ in little
        n = r.choice([1, 3, 20, 79, 80, 81, 128, 255, 256, 257, 300, 1024, 5000])
        base = r.choice(["a" * n, "".join(r.choice("abc {}") for _ in range(n)), "ab" * (n // 2) + "c", "é" * (n // 2)])
        w = [base]
        for _ in range(r.randint(1, 4)): w.append(near(r.choice(w)))
        w = [x for x in w if "\n" not in x]
        a = [r.choice(w) for _ in range(r.randint(1, 5))]
        add(a, [r.choice(w) for _ in range(r.randint(1, 5))] if r.random() < 0.5 else [near(x) if r.random() < 0.3 else x for x in a])
    words = ["", "", "a", "b", "{", "}", "  x", "x  ", "é", "+ a", "- b", "@@ 1", "a\r", "\t", "日本", "line"]
    for i in range(1500 if quick else 12000):
        n = r.choice([3, 8, 15, 40])
        w = words[:r.choice([2, 4, 8, len(words)])]
        a = [r.choice(w) for _ in range(r.randint(1, n))]
        if r.random() < 0.6:      # an edited copy
            b = list(a)
            for _ in range(r.randint(0, 6)):
                x = r.random()
                p = r.randint(0, len(b))
                if x < 0.35: b.insert(p, r.choice(w))
                elif x < 0.7 and len(b) > 1: b.pop(min(p, len(b) - 1))
                elif b: b[min(p, len(b) - 1)] = r.choice(w)
            if not b: b = [""]
        else: b = [r.choice(w) for _ in range(r.randint(1, n))]
        add(a, b)
    for i in range(12 if quick else 60):      # more lines than the others have
        n = r.choice([60, 100, 127, 130, 200, 260, 300])
        a = [r.choice(words) + str(r.randint(0, n if i % 3 else 3)) for _ in range(n)]
        b = list(a)
        for _ in range(r.choice([1, 2, 5, 20, n])):
            x, p = r.random(), r.randint(0, len(b) - 1)
            if x < 0.3: b.insert(p, "new%d" % r.randint(0, 9))
            elif x < 0.6 and len(b) > 1: del b[p:p + r.choice([1, 1, 3, 30])]
            elif x < 0.7: b[p:p] = [r.choice(a) for _ in range(r.choice([2, 10, 70]))]
            else: b[p] = b[p] + "x"
        if not b: b = [""]
        if r.random() < 0.2: b = b[::-1]
        if r.random() < 0.5: a, b = b, a
        add(a, b)
    return out

def run(ctx, pairs):
    inp, outp = ctx.tmp("in"), ctx.tmp("out")
    with open(inp, "w") as f:
        for i, (a, b) in enumerate(pairs): f.write(json.dumps({"id": i, "a": a, "b": b}) + "\n")
    p = subprocess.Popen([HARNESS, "linediff", inp, outp], stderr=subprocess.PIPE, preexec_fn=limit)
    why = None
    try:
        _, err = p.communicate(timeout=300)
        if p.returncode != 0: why = "the process died: exit %d %s" % (p.returncode, err[-200:].decode(errors="replace"))   # e.g. an endless recursion or out of memory
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        why = "no result after 300 s"
    res = []
    for l in open(outp, errors="replace") if os.path.exists(outp) else ():
        try: res.append(json.loads(l))
        except ValueError: break
    if why: return [], (pairs[len(res)] if len(res) < len(pairs) else None, why)
    return res, None

def check(ctx):
    from tlc import tlc
    rc, out, st = tlc("MCLineDiff", timeout=600)
    ctx.tlc_done(st)
    if rc != 0: raise ToolError("MCLineDiff:\n" + out[-2000:])
    ctx.extra["model"] = {"distinct_states": st["distinct"], "exhaustive": "all pairs of texts of 1..4 lines over 3 different lines"}
    pairs = cases(ctx.seed, ctx.quick())
    judge(ctx, pairs)
    ctx.samples = [{"first": a, "second": b} for a, b in pairs[-2:]]
    ctx.extra["pairs"] = len(pairs)
    return "model_checking", {}, ["the rendering of a difference (Display) is the public interface that is judged"]

def judge(ctx, pairs):
    res, dead = run(ctx, pairs)
    if dead:
        ctx.violation("%s\nfor %r" % (dead[1], dead[0]), {"kind": "linediff", "pair": dead[0]})
        return
    traces = []
    for x in res:
        a, b = pairs[x["id"]]
        num = {}
        enc = lambda l: [num.setdefault(y, len(num)) for y in l]
        if "panic" in x:
            ctx.violation("line_diff panics for %r and %r" % (a, b), {"kind": "linediff", "pair": [a, b]})
            return
        hs = [parse(h) for h in x["hunks"]]
        if any(h is None for h in hs) or "".join(x["hunks"]) != x["text"]:
            ctx.violation("an unintelligible difference for %r and %r: %r" % (a, b, x["text"]), {"kind": "linediff", "pair": [a, b]})
            return
        traces.append({"id": x["id"], "a": enc(a.split("\n")), "b": enc(b.split("\n")),
                       "hunks": [{"at": h[0], "minus": enc(h[1]), "plus": enc(h[2])} for h in hs]})
    bad = []
    for k in range(0, len(traces), 20000):
        bad += validate(ctx, traces[k:k + 20000], module="LineDiffTrace")
    for t, at in bad[:3]:
        a, b = pairs[t["id"]]
        ctx.violation("not a minimal edit script from\n%r to\n%r:\n%s" % (a, b, res[t["id"]]["text"]), {"kind": "linediff", "pair": [a, b]})

def replay(ctx, d): judge(ctx, [tuple(d["pair"])])
