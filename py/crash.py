"""C01: crashes.  Scripts for the harness mode crash, see harness/src/crash.rs."""
from common import *
from gen import *

def script(seed, i):
    g = Gen("%s/crash/%d" % (seed, i), "crash")
    r = g.r
    runs = []
    big = r.random() < 0.08
    for k in range(r.choice([1, 1, 1, 1, 2, 2, 3])):
        g.p["preload"] = 0.8 if k == 0 else 0.1
        ops = g.trace()
        if big:
            # more than a block of the log
            docs = [{"_id": 100 + x + 20 * k, "a": x % 3, "s": "y" * r.choice([2000, 3000])} for x in range(r.randint(8, 14))]
            ops.insert(r.randint(0, len(ops)), {"op": "insert_many", "s": 0, "c": "t", "docs": [j(d) for d in docs]})
        if k: ops.insert(0, {"op": "dump"})
        x = r.random()
        at = ["open", r.random()] if x < 0.15 else ["end", 1.0] if x < 0.2 else ["ops", r.random(), r.random()]
        runs.append({"ops": ops, "at": at, "mode": r.choice(["kill", "strict", "lazy", "torn", "torn"])})
    post = [{"op": "dump"}]
    for c in ("t", "u"):
        for f in g.p["idx_fields"]: post.append(g.named({"op": "find", "s": 0, "q": j({f: g.lit(c, f)})}, c))
    for c in ("t", "u"):
        post.append(g.named({"op": "insert_one", "s": 0, "doc": j({"_id": 70, "a": 1, "n": r.choice([1, 2, 70])})}, c))
        post.append(g.named({"op": r.choice(["update_many", "delete_many"]), "s": 0, "q": j(g.filt(c)), "u": j({"$set": {"s": "zz"}})}, c))
        if post[-1]["op"] == "delete_many": del post[-1]["u"]
    post += [{"op": "dump"}, {"op": "reopen"}, {"op": "dump"}]
    return {"id": i, "runs": runs, "post": post}
