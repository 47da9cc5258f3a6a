"""Runs scripts against the Python binding (the package polodb is on PYTHONPATH) and
records what was passed and what came back:  pydrive.py IN OUT"""
import datetime, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vj
from polodb import PoloDB
from polodb.rust_polodb import PyDatabase

UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
ALIENS = {"null": lambda: None, "bytes": lambda: b"ab", "date": lambda: EPOCH, "re": lambda: re.compile("a"), "tuple": lambda: (1, 2), "set": lambda: {1},
          "object": object, "big": lambda: 2 ** 63, "neg": lambda: -2 ** 63 - 1, "huge": lambda: 10 ** 40, "half": lambda: "\ud800", "intkey": lambda: {1: 2}, "cls": lambda: int}

def value(v):
    """tagged value -> what is passed to the binding"""
    t = v[0]
    if t == "py": return ALIENS[v[1]]()
    if t in ("i", "l"): return v[1]
    if t in ("ix", "lx"): return vj.unbig(v[1])
    if t == "d": return v[1] / 4
    if t == "dx": return vj.undkey(v[1])
    if t == "s": return bytes(v[1]).decode()
    if t == "b": return bool(v[1])
    if t == "o": return {".".join(k): value(x) for k, x in v[1]}
    if t == "a": return [value(x) for x in v[1]]
    raise TypeError(t)

def enc(v, out=True):
    """a Python value -> tagged"""
    if isinstance(v, bool): return ["b", int(v)]
    if isinstance(v, int): return vj.j(vj.L(v)) if -2 ** 63 <= v < 2 ** 63 else ["py", "int"]
    if isinstance(v, float): return vj.j(v)
    if isinstance(v, str):
        try: return ["s", list(v.encode())]
        except UnicodeEncodeError: return ["py", "str"]
    if type(v) is dict:
        if any(not isinstance(k, str) for k in v): return ["py", "dict"]
        return ["o", [[k.split("."), enc(x, out)] for k, x in v.items()]]
    if type(v) is list: return ["a", [enc(x, out) for x in v]]
    if not out: return ["py", type(v).__name__]
    if v is None: return ["n"]
    if type(v) is bytes: return ["by", list(v)]
    if type(v) is tuple and len(v) == 2 and all(type(x) is int for x in v): return ["ts", [vj.big(v[0]), vj.big(v[1])]]
    if isinstance(v, re.Pattern): return ["re", [list(v.pattern.encode()), [ord(o) for o, f in (("i", re.I), ("m", re.M), ("s", re.S), ("x", re.X)) if v.flags & f]]]
    if isinstance(v, datetime.datetime) and v.tzinfo is not None and v.utcoffset() == datetime.timedelta(0) and v.microsecond % 1000 == 0:
        return vj.j(vj.DT((v - EPOCH) // datetime.timedelta(milliseconds=1)))
    return ["py", repr(v)[:100]]

class Runner:
    def __init__(self, at):
        self.at, self.db, self.handles, self.old = at, None, {}, None
        self.ev = []
    def open(self, how):
        if how == "with":
            with PoloDB(self.at) as db: self.db = db
        else:
            self.db = PoloDB(self.at)
    def raw(self): return self.db._PoloDB__rust_db
    def call(self, e, f):
        e = dict(e, py=1)
        try:
            r = f()
            e["r"] = dict({"k": "ok"}, **r)
        except Exception as x:
            e["r"] = {"k": "err", "e": "other", "msg": type(x).__name__ + ": " + str(x)[:200]}
        except BaseException as x:      # a panic of the library
            e["r"] = {"k": "panic", "e": "panic", "msg": type(x).__name__ + ": " + str(x)[:200]}
        self.ev.append(e)
        return e["r"]["k"] == "ok"
    def get(self, o, how):
        c = o["c"]
        def f():
            h = self.db[c] if how == "item" else getattr(self.db, c) if how == "attr" else self.db.collection(c)
            if h.name() != c: raise BaseException("its name is " + h.name())
            self.handles[c] = h
            return {}
        return self.call({k: o[k] for k in ("c", "cb") if k in o} | {"op": "py_coll"}, f)
    def dump(self):
        out = []
        for c in sorted(self.db.list_collection_names()):
            docs = self.raw().collection(c).find({})
            out.append([c, [enc(d) for d in docs]])
        return {"colls": out}
    def step(self, o):
        n = o["op"]
        e = {k: v for k, v in o.items() if k not in ("how", "raw")}
        if n == "reopen":
            self.old = self.old or (list(self.handles.values()) or [None])[0]
            self.handles = {}
            self.db = None
            def f():
                self.open(o.get("how"))
                return {}
            return self.call(e, f)
        if n == "stale":
            if self.old is None: return
            old, self.old = self.old, None
            def f():
                old.insert_one({"a": 1})
                return {}
            return self.call(e, f)
        if n == "busy":
            def f():
                (PyDatabase.open_path if o.get("raw") else PoloDB)(self.at)
                return {}
            return self.call(e, f)
        if n == "list":
            return self.call(e, lambda: {"names": self.db.list_collection_names()})
        if n == "dump": return self.call(e, self.dump)
        if n == "py_coll": return self.get(o, o.get("how"))
        # operations of a collection
        if o.get("raw"): h = self.raw().collection(o["c"])
        else:
            if o["c"] not in self.handles and not self.get(o, o.get("how")): return
            h = self.handles[o["c"]]
        a = {k: value(o[k]) for k in ("doc", "q", "u") if k in o}
        a.update({k: [value(x) for x in o[k]] for k in ("docs", "pipe") if k in o})
        for k, v in a.items(): e[k] = [enc(x, False) for x in v] if k in ("docs", "pipe") else enc(v, False)
        def f():
            if n == "insert_one":
                r = h.insert_one(a["doc"])
                if list(r) != ["inserted_id"]: raise BaseException("result %r" % r)
                return {"ids": [enc(r["inserted_id"])]}
            if n == "insert_many":
                r = h.insert_many(a["docs"])
                if sorted(r) != list(range(len(a["docs"]))): raise BaseException("result %r" % r)
                return {"ids": [enc(r[i]) for i in range(len(r))]}
            if n == "find": return {"docs": [enc(d) for d in h.find(a["q"])]}
            if n == "find_one":
                d = h.find_one(a["q"])
                return {"docs": [] if d is None else [enc(d)]}
            if n == "aggregate": return {"docs": [enc(d) for d in h.aggregate(a["pipe"])]}
            if n == "count": return {"n": h.count_documents() if o.get("raw") else h.len()}
            if n in ("delete_one", "delete_many"):
                r = getattr(h, n)(a["q"])
                if list(r) != ["deleted_count"]: raise BaseException("result %r" % r)
                return {"n": r["deleted_count"]}
            if n in ("update_one", "update_many"):
                r = getattr(h, n)(a["q"], a["u"])
                if sorted(r) != ["matched_count", "modified_count"]: raise BaseException("result %r" % r)
                return {"m": r["matched_count"], "n": r["modified_count"]}
            raise BaseException(n)
        return self.call(e, f)

def main():
    out = open(sys.argv[2], "w")
    for l in open(sys.argv[1]):
        s = json.loads(l)
        r = Runner(s["at"])
        for o in s["pyops"]:
            r.step(o)
            if r.ev and r.ev[-1]["r"]["k"] == "panic": break
        r.db = None
        r.handles = {}
        out.write(json.dumps({"id": s["id"], "ev": r.ev}) + "\n")
        out.flush()

if __name__ == "__main__": main()
