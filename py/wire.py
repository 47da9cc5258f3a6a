"""C17-C19: scripts of wire commands, checked against ServerTrace.tla."""
import collections, json
from common import *
from gen import *

WB = dict(fields=["a", "n", "s", "arr", "d"], colls=["t", "u"], preload=0.9, load=6, no_id=0.02, odd_id=0.05, odd=0.08, nest=0.06, ids=8, upsert=0.2, opts=0.5, len=16, no_reopen=True, hazard=0.02)
PROFILES["w_crud"] = dict(WB, invalid=0.06, bad_upd=0.08, bad_id=0.02, dup=0.05)
PROFILES["w_cursor"] = dict(WB, load=14, len=26, fields=["a", "n"], colls=["t", "u"], by_id=0.02, upsert=0.0)
PROFILES["w_session"] = dict(WB, load=4, len=28, fields=["a", "n"], upd_fields=["a", "n"], ids=5, by_id=0.5, upd_ops=["$set", "$inc", "$unset"])
PROFILES["w_bytes"] = dict(WB, fields=["a", "n"], upd_fields=["a", "n"], load=3, len=16, odd=0, nest=0.1, hazard=0, no_id=0, odd_id=0, upsert=0.0, opts=0.2)
CMDS = {
    "w_crud": {"insert": 4, "update": 6, "delete": 4, "find": 6, "aggregate": 2, "bad": 2.5, "ping": 0.4, "hello": 0.3, "getmore": 1, "kill": 0.3, "restart": 0.25, "hangup": 0.5},
    "w_cursor": {"insert": 1.5, "update": 1, "delete": 1, "find": 6, "aggregate": 2.5, "getmore": 14, "drain": 2, "kill": 2, "bad": 0.3, "start": 0.4, "commit": 0.2, "abort": 0.2, "restart": 0.15, "hangup": 0.6},
    "w_session": {"insert": 4, "update": 4, "delete": 2.5, "find": 6, "aggregate": 1, "start": 5, "commit": 4, "abort": 2, "getmore": 1, "stale": 0.8, "bad": 0.4, "restart": 0.3, "hangup": 0.8},
}

def bad_command(g):
    """commands the server can not understand"""
    r = g.r
    c = r.choice(["t", "u"])
    db = {"$db": "db"}
    q = {"q": {}, "u": {"$set": {"a": 1}}}
    d = r.choice([
        {"foo": 1, **db}, {"listDatabases": 1, **db}, {"insert": 1, "documents": [{"a": 1}], **db}, {"insert": c, **db},
        {"insert": c, "documents": 1, **db}, {"insert": c, "documents": [1], **db}, {"insert": c, "documents": {"a": 1}, **db},
        {"update": c, **db}, {"update": c, "updates": [1], **db}, {"update": c, "updates": {}, **db}, {"update": c, "updates": [{}], **db},
        {"update": c, "updates": [{"q": {}}], **db}, {"update": c, "updates": [{"u": {"$set": {"a": 1}}}], **db}, {"update": c, "updates": [{"q": 1, "u": {}}], **db},
        {"update": c, "updates": [{"q": {}, "u": [{"$set": {"a": 1}}]}], **db}, {"update": c, "updates": [dict(q, multi="x")], **db},
        {"delete": c, **db}, {"delete": c, "deletes": 1, **db}, {"delete": c, "deletes": [{}], **db}, {"delete": c, "deletes": [{"q": 1}], **db}, {"delete": c, "deletes": [3], **db},
        {"delete": c, "deletes": [{"q": {}, "limit": "x"}], **db}, {"delete": c, "deletes": [{"q": {}, "limit": 7}], **db},
        {"find": 1, **db}, {"find": c}, {"find": c, "filter": 1, **db}, {"find": c, "limit": -1, **db}, {"find": c, "limit": "x", **db}, {"find": c, "skip": -2, **db},
        {"find": c, "batchSize": -1, **db}, {"find": c, "batchSize": "x", **db}, {"find": c, "sort": 1, **db}, {"find": c, "$db": 3}, {"find": c, "skip": 1.5, **db},
        {"find": c, "skip": 9223372036854775808.0, **db}, {"find": c, "limit": 9223372036854775808.0, **db}, {"find": c, "batchSize": float("nan"), **db}, {"find": c, "limit": float("inf"), **db},
        {"aggregate": c, **db}, {"aggregate": c, "pipeline": 1, **db}, {"aggregate": c, "pipeline": [1], **db}, {"aggregate": 1, "pipeline": [], **db}, {"aggregate": c, "pipeline": []},
        {"aggregate": c, "pipeline": [], "cursor": {"batchSize": -5}, **db},
        {"getMore": 1, "collection": c, **db}, {"getMore": "x", "collection": c, **db}, {"getMore": L(1), **db}, {"getMore": L(1), "collection": 2, **db}, {"getMore": L(1), "collection": c},
        {"killCursors": 1, "cursors": [], **db}, {"killCursors": c, **db}, {"killCursors": c, "cursors": 1, **db}, {"killCursors": c, "cursors": [1], **db}, {"killCursors": c, "cursors": ["x"], **db},
        {"commitTransaction": 1, **db}, {"abortTransaction": 1, **db}, {"commitTransaction": 1, "autocommit": False, **db}, {"abortTransaction": L(1), "autocommit": False, "lsid": {"id": BIN((4, b"\x63" * 16))}, "txnNumber": L(1), **db},
        {"find": c, "autocommit": False, **db}, {"find": c, "startTransaction": True, **db}, {"insert": c, "documents": [{"a": 9}], "startTransaction": True, "lsid": 1, "autocommit": False, "txnNumber": L(1), **db},
        {"find": c, "lsid": {"id": 5}, "startTransaction": True, "autocommit": False, "txnNumber": L(1), **db}, {"find": c, "lsid": {}, "autocommit": False, "txnNumber": L(1), **db},
        {"insert": c, "documents": [{"a": 3}], "lsid": {"id": BIN((4, b"\x63" * 16))}, "autocommit": False, "txnNumber": L(4), **db},
    ])
    return {"op": "raw", "bad": 1, "doc": j(d)}

class Cmds:
    """commands with random contents"""
    def __init__(self, g, prof, lab=0):
        self.g, self.prof, self.nlab, self.labs = g, prof, lab, []
        self.r, self.p = g.r, g.p
    def insert(self, c, ds):
        g = self.g
        o = {"op": "insert", "c": c, "docs": [j(d) for d in ds]}
        if g.ch(0.5):
            o["seq"] = 1
            if g.ch(0.15): o["first"] = 1
        return o
    def stmts(self, o, st):
        o["stmts"] = st
        if self.g.ch(0.4): o["seq"] = 1
        return o
    def update(self, c):
        g, st = self.g, []
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            s = {}
            if g.ch(self.p["upsert"]):
                q = g.upsert_q(c); s["upsert"] = 1
            else: q = g.filt(c)
            u = g.upd()
            if isinstance(u.get("$set"), dict): g.note(c, dict(u["$set"]))
            s["q"], s["u"] = j(q), j(u)
            if g.ch(0.7): s["multi"] = self.r.choice([0, 1, 1])
            st.append(s)
        return self.stmts({"op": "update", "c": c}, st)
    def delete(self, c):
        st = []
        for _ in range(self.r.choice([1, 1, 1, 2])):
            s = {"q": j(self.g.filt(c))}
            if self.g.ch(0.9): s["limit"] = self.r.choice([0, 1])
            st.append(s)
        return self.stmts({"op": "delete", "c": c}, st)
    def num(self, o):
        if self.g.ch(0.3): o["num"] = self.r.choice(["l", "d"])
        if self.g.ch(0.04): o["batchx"] = 1
        for k in ("skip", "limit", "batch"):     # what an Int64 can say
            if k in o and k + "x" in o: o[k], o[k + "x"] = 1000000, str(self.r.choice(HUGE[:6] if o.get("num") == "d" else HUGE[:7]))
            else: o.pop(k + "x", None)
        return o
    def batch(self, o, small=0.6):
        if self.g.ch(small): o["batch"] = self.r.choice([0, 1, 1, 1, 2, 2, 2, 3, 4, 5] if self.prof == "w_cursor" else [0, 1, 1, 2, 2, 3, 4, 5, 101])
        return self.num(o)
    def find(self, c):
        g = self.g
        self.nlab += 1; self.labs.append((self.nlab, c))
        o = {"op": "find", "c": c, "lab": self.nlab}
        if self.prof == "w_cursor":
            if g.ch(0.2): o["q"] = j(g.filt(c, 1))
        else: o["q"] = j(g.filt(c))
        if g.ch(self.p["opts"]): g.opts(o)
        if g.ch(0.1): o["single"] = 1
        return self.batch(o, 0.85 if self.prof == "w_cursor" else 0.4)
    def aggregate(self, c):
        g = self.g
        self.nlab += 1; self.labs.append((self.nlab, c))
        pipe = [] if self.prof == "w_cursor" and g.ch(0.4) else g.pipe(c)
        return self.batch({"op": "aggregate", "c": c, "lab": self.nlab, "pipe": [j(x) for x in pipe]})
    def getmore(self, lab):
        g = self.g
        o = {"op": "getmore", "c": lab[1], "cur": lab[0], "lab": lab[0]}
        if g.ch(0.8): o["batch"] = self.r.choice([1, 1, 2, 3, 5, 101] if self.prof != "wc" else [1, 1, 2, 2, 3, 101])
        if g.ch(0.9): o["soft"] = 1      # not if the cursor is at its end
        return self.num(o)
    def kill(self, c):
        return {"op": "kill", "c": c, "curs": [x[0] for x in self.r.sample(self.labs[-5:], self.r.randint(1, min(2, len(self.labs[-5:]))))]}

def plain(o, n):
    """with this batchSize"""
    o = dict(o, batch=n); o.pop("batchx", None)
    return o

def damage(r):
    """how a message is damaged: see damaged in harness/src/wire.rs"""
    i = r.randint(0, 9)
    ints = [0, 1, 3, 4, 5, 6, 12, -1, -5, 1000, 65536, 48000000, 2**31 - 1, -2**31]
    return r.choice([
        lambda: ["none"],
        lambda: ["cut", r.randint(0, 99)],
        lambda: ["head", 0, r.choice([0, 1, 15, 16, 17, 20, 21, 26, -1, -2**31, 2**31 - 1, 48000000, 48000001, 100000])],
        lambda: ["head", r.choice([1, 2]), r.choice([0, -1, 5, 2**31 - 1, -2**31])],
        lambda: ["head", 3, r.choice([0, 1, 2001, 2002, 2003, 2004, 2004, 2005, 2010, 2011, 2012, 2012, 2014, -1, 2013 + 65536])],
        lambda: ["head", 4, r.choice([0, 1, 2, 3, 4, 0x8000, 0x10000, 0x20000, 0x7ff00000, -2**31, 0x10001])],
        lambda: ["longer", r.choice([1, 2, 3, 4, 5, 8, 100]), r.choice([0, 1, 5, 255])],
        lambda: ["length", r.choice([-8, -5, -4, -1, 1, 3, 4, 5, 100])],
        lambda: ["byte", i, r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 32, 100, 127, 128, 255])],
        lambda: ["byte", i, r.randint(0, 255)],
        lambda: ["int", i, r.choice(ints)],
        lambda: ["add", i, r.choice([-8, -5, -4, -1, 1, 2, 4, 5, 16, 2**30])],
        lambda: ["junk", i, r.choice([-5, -4, -2, -1, 1, 2, 3, 4, 5, 8])],
        lambda: ["dup", r.randint(0, 5), r.choice([0, 0, 1, 2, 3])],
        lambda: ["pack"] + r.choice([[0, 0], [1, 0], [2, r.choice([-4, -1, 1, 5, 2**30])], [3, r.choice([1, 2, 3, 4, 255])], [4, r.randint(0, 9)]]),
        lambda: ["random", r.randint(0, 10**6), r.choice([1, 4, 15, 16, 17, 20, 40, 80])],
    ])()

def bytes_script(seed, i):
    """C22: damaged messages among others"""
    g = Gen("%s/w_bytes/%d" % (seed, i), "w_bytes")
    p, r = g.p, g.r
    g.docs = {}
    m = Cmds(g, "w_crud")
    ops, up, crowd = [], [], False
    def send(o):
        o["conn"] = r.choice(up) if crowd else r.choice([1, 2, 3, 4 + len(ops)])
        if o["conn"] <= 3: up.append(o["conn"])
        ops.append(o)
    for c in p["colls"]:
        if g.ch(p["preload"]):
            ds = []
            for k in range(r.randint(1, p["load"])):
                d = g.doc(); d["_id"] = k + 1
                g.note(c, d); ds.append(d)
            send(m.insert(c, ds))
    n = r.randint(p["len"] // 2, p["len"])
    deep = 0
    while len(ops) < n:
        c = r.choice(p["colls"])
        o = r.choice([lambda: m.insert(c, [g.doc() for _ in range(r.randint(1, 2))]), lambda: m.update(c), lambda: m.delete(c), lambda: m.find(c), lambda: {"op": "ping"}, lambda: m.find(c)])()
        if i % 4 == 1 and up and not crowd and g.ch(0.1):
            crowd = True; ops.append({"op": "flood", "n": 150}); continue
        if crowd:
            # nothing that may need files
            if g.ch(0.3): crowd = False; ops.append({"op": "flood", "n": 0})
            elif o["op"] in ("find", "ping"): send(o)
            elif m.labs and g.ch(0.5): send(m.getmore(r.choice(m.labs[-3:])))
            continue
        if g.ch(0.55):
            send(o); continue
        o.pop("lab", 0)
        x = r.random()
        if x < 0.1: o["crc"] = 1
        elif x < 0.2: o["comp"] = 1
        elif x < 0.25 and o["op"] != "find": o["nore"] = 1
        if g.ch(0.08) and not deep:
            deep = r.choice([3, 30, 70, 210, 300, 800, 2000])
            o = {"op": "insert", "c": "deep", "id": 1, "mut": ["deep", deep, r.choice([0, 1])], "seq": r.choice([0, 1])}
            if deep > 200 and g.ch(0.6): o["mut"].append(r.choice(["find", "update", "upsert", "delete", "aggregate", "group", "lsid", "nothing"]))
        else: o["mut"] = damage(r)
        ops.append(o)
    if crowd: ops.append({"op": "flood", "n": 0})
    send({"op": "find", "c": "t"})
    return dict({"id": i, "prof": "w_bytes", "ops": ops}, **({"nofile": 120} if i % 4 == 1 else {}))

def script(seed, prof, i):
    if prof == "w_bytes": return bytes_script(seed, i)
    g = Gen("%s/%s/%d" % (seed, prof, i), prof)
    p, r = g.p, g.r
    g.docs = {}
    ops, sess = [], {}
    crowd = prof in ("w_cursor", "w_session") and g.ch(0.05)     # many cursors or sessions
    sids = list(range(1, 10)) if crowd else [1, 2, 3]
    nextnum = {k: 1 for k in sids}
    m = Cmds(g, prof)
    labs, insert, update, delete, find, aggregate, getmore = m.labs, m.insert, m.update, m.delete, m.find, m.aggregate, m.getmore
    def send(o, **kw):
        o.update(kw)
        o.setdefault("conn", r.choice([1, 1, 2, 3]))
        x = r.random()
        if x < 0.04: o["frag"] = 1
        elif x < 0.07: o["crc"] = 1
        elif x < 0.10: o["comp"] = 1
        ops.append(o)
        return o
    for c in p["colls"]:
        if g.ch(p["preload"]):
            ds = []
            for k in range(r.randint(1, p["load"]) if prof != "w_cursor" else r.choice([1, 3, 5, 8, p["load"]])):
                d = g.doc()
                if not g.ch(p["dup"]): d["_id"] = k + 1
                g.note(c, d); ds.append(d)
            if prof == "w_cursor" and i % 25 == 3:
                ds = [{"_id": k, "n": k % 7} for k in range(r.choice([100, 101, 102, 202, 230]))]
            send(insert(c, ds))
    big = prof == "w_cursor" and i % 25 == 3
    names = list(CMDS[prof]); w = list(CMDS[prof].values())
    n = r.randint(p["len"] // 2, p["len"])
    if big: n = min(n, 12)
    elif crowd: n *= 3
    while len(ops) < n:
        k = r.choices(names, [3, 0.5, 0.5, 12, 2, 12, 3, 1, 0.5, 0.4, 0.2, 0.2, 0, 0] if big else w)[0]
        c = r.choice(p["colls"])
        if k == "insert": o = insert(c, [g.doc() for _ in range(r.randint(1, 3))]); [g.note(c, {}) for _ in ()]
        elif k == "update":
            if big: continue
            o = update(c)
        elif k == "delete":
            if big: continue
            o = delete(c)
        elif k == "find": o = find(c)
        elif k == "aggregate":
            if big: continue
            o = aggregate(c)
        elif k == "getmore":
            if not labs: continue
            o = getmore(r.choice(labs if crowd or g.ch(0.1) else labs[-4:]))
        elif k == "drain":
            if not labs or crowd and g.ch(0.9): continue
            lab = r.choice(labs[-3:])
            for _ in range(8): send(plain(getmore(lab), r.choice([2, 3, 5, 101])))
            continue
        elif k == "kill":
            if not labs: continue
            send(m.kill(c)); continue
        elif k == "ping":
            send({"op": "ping"}); continue
        elif k == "hello":
            send({"op": "hello"}, **({"query": 1} if g.ch(0.5) else {})); 
            ops[-1].pop("crc", 0); ops[-1].pop("comp", 0)
            continue
        elif k == "bad":
            send(bad_command(g)); continue
        elif k == "restart":
            if len(ops) < 4: continue
            old = dict(sess); sess.clear()
            ops.append({"op": "restart"})
            # what was open is gone
            for s, num in old.items():
                if g.ch(0.5): send(r.choice([{"op": "commit"}, find(c), insert(c, [g.doc()])]), lsid=s, txn=num)
            if labs and g.ch(0.5): o = getmore(r.choice(labs[-3:])); o.pop("soft", 0); send(o)
            if g.ch(0.7): send({"op": "find", "c": c})
            continue
        elif k == "hangup":
            if ops and "conn" in ops[-1]: ops.append({"op": "hangup", "conn": ops[-1]["conn"]})
            continue
        elif k == "start":
            s = r.choice(sids) if prof == "w_session" else 1
            # two transactions that write the same documents wait for each other: keep that rare
            if len(sess) >= 2 and not crowd and g.ch(0.7): continue
            o = r.choice([insert(c, [g.doc()]), find(c), find(c), update(c)]) if not crowd or g.ch(0.2) else find(c)
            o.update(lsid=s, txn=nextnum[s], start=1)
            sess[s] = nextnum[s]; nextnum[s] += 1
            send(o); continue
        elif k in ("commit", "abort"):
            if not sess and not g.ch(0.1) or crowd and len(sess) < 6 and g.ch(0.7): continue
            s = r.choice(list(sess) or [1, 2])
            o = {"op": k, "lsid": s, "txn": sess.get(s, nextnum[s])}
            if g.ch(0.3): o["num"] = "l"
            send(o)
            if sess.pop(s, None) and g.ch(0.5):
                send(find(c), lsid=s)     # the session without a transaction
            continue
        elif k == "stale":
            # a number that is not that of the session's transaction
            s = r.choice([1, 2, 3])
            o = r.choice([insert(c, [g.doc()]), find(c), delete(c), update(c)])
            o.update(lsid=s, txn=max(0, sess.get(s, nextnum[s]) + r.choice([-1, 1])))
            if o["txn"] == sess.get(s): continue
            send(o); continue
        if crowd and prof == "w_session" and k in ("insert", "update", "delete") and g.ch(0.6): continue
        if sess and g.ch(0.65 if prof == "w_session" else 0.3):
            s = r.choice(list(sess)); o.update(lsid=s, txn=sess[s])
        elif sess and k in ("insert", "update", "delete") and g.ch(0.6): continue
        elif g.ch(0.1): o["lsid"] = r.choice([1, 2, 3])
        if k in ("insert", "update", "delete") and "txn" not in o and not sess and g.ch(0.06):
            send(o, nore=1)
            send({"op": "ping"}, conn=o["conn"])
        else:
            send(o)
            if k in ("insert", "update", "delete", "find") and g.ch(0.08) and "txn" not in o and not sess:
                # the next message is sent before the reply has been read
                o["pipe_next"] = 1
                if "lab" in o: labs.pop()
                o2 = r.choice([lambda: {"op": "ping"}, lambda: plain(find(c), 101), lambda: insert(c, [g.doc()])])()
                if o2["op"] == "find": labs.pop()
                send(o2, conn=o["conn"])
        if o["op"] in ("update", "insert", "delete") and g.ch(0.4):
            o = {"op": "find", "c": o["c"], **({"lsid": o["lsid"], "txn": o["txn"]} if "txn" in o else {})}
            send(o)
    for s in list(sess):
        if g.ch(0.5): send({"op": r.choice(["commit", "abort"]), "lsid": s, "txn": sess[s]})
    return {"id": i, "prof": prof, "ops": ops}

# several connections at the same time: ServerConcTrace.tla
WC = dict(WB, fields=["a", "n"], upd_fields=["a", "n"], idx_fields=[], odd=0, nest=0, hazard=0, no_id=0, odd_id=0, bad_id=0, ids=4, by_id=0.6, load=4, upsert=0.0, opts=0.0, dup=1.0)
CONC = {
    "count": (dict(WC, upd_ops=["$inc"]), {"update": 6, "find": 3, "delete": 0.5}),
    "crud": (dict(WC, upsert=0.15, colls=["t", "u"], preload=0.6), {"insert": 5, "update": 4, "delete": 3, "find": 4, "aggregate": 1}),
    "cursor": (dict(WC, load=20, opts=0.2, by_id=0.1, ids=30), {"getmore": 10, "kill": 0.6, "find": 1, "update": 2, "delete": 1, "insert": 2}),
    "session": (dict(WC, by_id=0.8, ids=7), {"start": 5, "insert": 3, "update": 5, "delete": 1.5, "find": 5, "commit": 5, "abort": 1.5, "getmore": 0.5}),
}
for _k, _v in CONC.items(): PROFILES["wc_" + _k] = _v[0]

def conc_script(seed, kind, i):
    g = Gen("%s/wc_%s/%d" % (seed, kind, i), "wc_" + kind)
    p, r = g.p, g.r
    g.docs = {}
    setup, shared = [], []
    m = Cmds(g, "wc")
    for c in p["colls"]:
        if not g.ch(p["preload"]) and kind == "crud": continue
        ds = []
        for k in range(r.randint(1 if kind != "cursor" else 3, p["load"])):
            d = g.doc(); d["_id"] = k + 1
            if kind == "count": d["n"] = r.choice([0, L(0), 0.5])
            g.note(c, d); ds.append(d)
        setup.append(m.insert(c, ds))
        if kind == "cursor" and c == "t":
            for _ in range(r.choice([1, 1, 2])):
                o = r.choice([m.find, m.find, m.aggregate])(c)
                o.pop("single", 0)
                if g.ch(0.8): o.pop("q", 0)
                o["batch"] = r.choice([0, 1, 1, 2]); o.pop("batchx", 0)
                setup.append(o)
            shared = list(m.labs)
    names, w = list(CONC[kind][1]), list(CONC[kind][1].values())
    n = r.choice([2, 3, 3, 4])
    threads, lab = [], 100
    for t in range(n):
        m = Cmds(g, "wc", lab); lab += 100
        m.labs += shared
        ops, num, open_ = [], 1, 0
        for _ in range(r.randint(2, 7 - n if kind == "session" else 8 - n)):
            k, c = r.choices(names, w)[0], r.choice(p["colls"])
            if kind == "session" and not open_ and g.ch(0.5): k = "start"
            if k in ("commit", "abort"):
                if not open_: continue
                ops.append({"op": k, "lsid": t + 1, "txn": open_}); open_ = 0
                continue
            if k in ("getmore", "kill") and not m.labs: continue
            start = k == "start"
            if start: k = r.choice(["find", "find", "update", "insert"])
            o = m.getmore(r.choice(m.labs[-3:])) if k == "getmore" else m.insert(c, [g.doc() for _ in range(r.randint(1, 2))]) if k == "insert" else getattr(m, k)(c)
            if len(o.get("stmts", [])) > 2: o["stmts"] = o["stmts"][:2]
            if len(o.get("stmts", [])) > 1 and g.ch(0.6): o["stmts"] = o["stmts"][:1]
            for s in o.get("stmts", []):
                if s.get("upsert") and not any(f[0] == ["_id"] for f in s["q"][1]): s["q"][1].append([["_id"], j(r.randint(1, 4))])
            if start:
                o.update(lsid=t + 1, txn=num, start=1); open_ = num; num += 1
            elif open_ and k != "kill" and g.ch(0.9): o.update(lsid=t + 1, txn=open_)
            elif open_ and k in ("insert", "update", "delete") and g.ch(0.8): continue
            ops.append(o)
        if open_ and g.ch(0.8): ops.append({"op": "commit", "lsid": t + 1, "txn": open_})
        threads.append(ops)
    fin = [{"op": "find", "c": c} for c in p["colls"]]
    # what is left of the shared cursors
    for lb, c in shared: fin += [{"op": "getmore", "c": c, "cur": lb, "lab": lb, "batch": 101}] * 2
    return {"id": i, "kind": kind, "setup": setup, "threads": threads, "fin": fin}

def oids(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "oid" and isinstance(x[1], list): out[json.dumps(x[1])] = x
        else:
            for y in x: oids(y, out)
    elif isinstance(x, dict):
        for y in x.values(): oids(y, out)

def top_ids(docs):
    for d in docs:
        if isinstance(d, list) and d[0] == "o":
            for k, v in d[1]:
                if k == ["_id"] and v[0] == "oid": yield v

def finish(t):
    """oc: the identifiers the database may have chosen for the documents of a
    command that have none: those seen later for the first time, in its collection"""
    if "ev" not in t: return t
    given, first = {}, {}
    for i, e in enumerate(t["ev"]):
        oids({k: v for k, v in e.items() if k != "r"}, given)
        r = e["r"]
        if r.get("k") != "ok": continue
        for c, ds in ([(e["c"], r["docs"])] if "docs" in r and "c" in e else []) + [(c, ds) for c, ds in r.get("colls", [])]:
            for v in top_ids(ds): first.setdefault((c, json.dumps(v[1])), (i, v))
    for i, e in enumerate(t["ev"]):
        if e["op"] == "insert" and any(not any(k == ["_id"] and v != ["n"] for k, v in d[1]) for d in e["docs"]) or e["op"] == "update" and any(s.get("upsert") for s in e["stmts"]):
            e["oc"] = [v for (c, k), (f, v) in first.items() if c == e["c"] and f > i and k not in given]
    return t
