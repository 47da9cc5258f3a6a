"""C05: scripts for several threads, checked against ConcTrace.tla."""
import json, random
from common import *
from gen import *

BASE = dict(typed=0, fields=["a", "n"], upd_fields=["a", "n"], odd=0, nest=0, hazard=0, no_id=0, odd_id=0, ids=4, by_id=0.5, load=3, upsert=0.0, opts=0.0, sort_fields=["n", "_id"], idx_fields=["a", "n"], len=1)
KINDS = {
    # hot documents: nothing may be lost
    "count": dict(upd_ops=["$inc"], ops={"update_one": 5, "update_many": 5, "find": 3}),
    # the same keys again and again
    "keys": dict(ops={"insert_one": 6, "insert_many": 2, "delete_one": 2, "delete_many": 1, "find": 2, "count": 1}, by_id=0.7),
    "unique": dict(fields=["a"], upd_fields=["a"], upd_ops=["$set"], unique=1.0, pre_index=1.0, idx_fields=["a"], ops={"insert_one": 5, "update_one": 4, "update_many": 1, "delete_one": 2, "find": 2}),
    # several documents at once
    "many": dict(upd_ops=["$set", "$inc"], ops={"update_many": 5, "find": 5, "insert_many": 2, "delete_many": 2, "count": 2, "aggregate": 1}, load=5, by_id=0.1),
    "wide": dict(upd_ops=["$set", "$inc"], ops={"update_many": 5, "find": 4, "delete_many": 1, "count": 2, "aggregate": 2, "insert_many": 1}, load=40, many=30, ids=3000, by_id=0.02, pre_index=0.2),
    "upsert": dict(upsert=1.0, upd_ops=["$set"], ops={"update_one": 5, "delete_many": 1, "find": 2, "insert_one": 1}, preload=0.3),
    "index": dict(unique=0.5, ops={"create_index": 4, "drop_index": 3, "insert_one": 4, "update_many": 3, "delete_one": 1, "find": 4}, pre_index=0.5),
    "colls": dict(colls=["t", "u"], preload=0.3, ops={"create_coll": 4, "drop": 4, "insert_one": 4, "create_index": 2, "list": 3, "find": 2, "count": 1, "insert_many": 1}, load=2),
    "mixed": dict(ops=dict(CRUD, create_index=1, drop_index=1, drop=0.5, create_coll=0.5, list=0.5), upsert=0.2, unique=0.5, pre_index=0.3, colls=["t", "u"]),
    "txn": dict(ops=dict(CRUD, begin=2), unique=0.5, pre_index=0.3, colls=["t", "u"]),
}
# several threads use one transaction
KINDS["shared"] = dict(ops={"insert_one": 4, "insert_many": 2, "update_one": 3, "update_many": 3, "delete_one": 1, "delete_many": 1, "count": 3, "cursor": 4}, upsert=0.1, unique=0.5, pre_index=0.3, load=4, ids=12)
# ... and one of them ends it
KINDS["finish"] = dict(ops={"insert_many": 6, "insert_one": 2, "update_many": 4, "delete_many": 1, "count": 1}, by_id=0.05, many=30, ids=5000, load=12, upd_ops=["$set", "$inc"], pre_index=0.6)
for k, v in KINDS.items(): PROFILES["conc_" + k] = dict(BASE, **v)

def script(seed, i):
    r = random.Random("%s/conc/%d" % (seed, i))
    kind = "txn" if i % 12 == 11 else r.choice([k for k in KINDS if k != "txn"])
    shared = kind in ("shared", "finish")
    g = Gen("%s/conc/%d" % (seed, i), "conc_" + kind)
    p = g.p
    g.docs = {}
    setup, threads = [], []
    for c in p["colls"]:
        if g.ch(p["preload"]):
            ds = []
            for x in range(r.randint(1, p["load"])):
                d = g.doc(); d["_id"] = x + 1
                if kind == "count": d["n"] = r.choice([0, L(0), 0.5])
                if kind == "unique": d["a"] = x
                g.note(c, d); ds.append(d)
            if g.ch(p["pre_index"]): setup.append(g.op("create_index", 0, c))
            setup.append(g.named({"op": "insert_many", "s": 0, "docs": [j(d) for d in ds]}, c))
    nt = nc = 0
    n = r.choice([2, 3, 3, 4])
    if shared:
        nt = 1; n = r.choice([2, 3, 3])
        setup.append({"op": "begin", "s": 1})
        if r.random() < 0.5: setup.append(g.op(r.choice(["insert_one", "update_many"]), 1))
    for t in range(n):
        ops = []
        s = 0
        for _ in range(r.randint(2, 7 - n + 1)):
            k = r.choices(list(p["ops"]), list(p["ops"].values()))[0]
            if k == "begin":
                if s == 0:
                    nt += 1; s = nt; ops.append({"op": "begin", "s": s})
                continue
            if shared:
                s = 0 if k in ("count", "cursor") and r.random() < 0.1 else 1
                if k == "cursor":
                    nc += 1
                    o = g.op("find", s)
                    ops.append(dict(o, op="cur_open", cur=nc))
                    ops += [{"op": "cur_next", "cur": nc}] * r.choice([1, 3, 6, 8])
                    continue
            o = g.op(k, s)
            if kind == "upsert" and o.get("upsert"):
                o["q"] = j({"_id": r.randint(1, 2)})
                if not r.choice([0, 1]): o["u"] = j({"$inc": {"n": 1}, "$set": {"a": t}})
            if o.get("upsert") and not any(f[0] == ["_id"] for f in o["q"][1]):
                o["q"][1].append([["_id"], j(r.randint(1, 3))])
            if kind == "unique" and "u" in o: o["u"] = j({"$set": {"a": r.randint(0, 4)}})
            if kind == "unique" and "doc" in o: o["doc"] = j({"_id": r.randint(1, 6), "a": r.randint(0, 4)})
            ops.append(o)
            if shared:
                if t == 0 and r.random() < (0.07 if kind == "shared" else 0.6): ops.append({"op": r.choice(["commit", "rollback"]), "s": 1})
                continue
            if s and r.random() < 0.4:
                ops.append({"op": r.choice(["commit", "commit", "rollback"]), "s": s})
                ops.append({"op": "abandon", "s": s})
                s = 0
        if s and not shared: ops += [{"op": "commit", "s": s}, {"op": "abandon", "s": s}]
        threads.append(ops)
    fin = [{"op": "find", "s": 1, "c": c, "q": j({})} for c in p["colls"]] + [{"op": r.choice(["commit", "commit", "rollback"]), "s": 1}] if shared else []
    fin.append({"op": "dump"})
    for c in p["colls"]:
        for f in ("a", "n"):
            k = g.known(c, f)
            fin.append(g.named({"op": "find", "s": 0, "q": j({f: k[0] if k else 1})}, c))
    return {"id": i, "kind": kind, "setup": setup, "threads": threads, "fin": fin}

def overlaps(t):
    """how many pairs of calls of different threads overlapped"""
    n = 0
    for i, a in enumerate(t["th"]):
        for b in t["th"][i + 1:]:
            n += sum(1 for x in a for y in b if x["call"] < y["ret"] and y["call"] < x["ret"])
    return n
