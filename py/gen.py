"""Random operation scripts.  A profile (see PROFILES) weighs the operations and
says what the data looks like; everything is derived from one seed."""
import random
from vj import *

NAN, INF = float('nan'), float('inf')
STRS = ["", "a", "b", "ab", "B", "a b", "abc", "x", "ba", "a\nb", "b\na", "A\n"]
USTRS = ["é", "日本", "Ā", "\u0001", "z" * 300, "\U0001F600"]
NUMS = [0, 1, 2, 3, -1, L(0), L(1), L(2), L(3), L(-1), 0.0, 1.0, 2.0, 0.5, 1.25, -1.5, -1.0]
BIGS = [2147483647, -2147483648, 2147483646, L(2147483648), L(-2147483649), L(9223372036854775807),
        L(-9223372036854775808), L(9223372036854775806), L(3000000000), L(9007199254740993), 65536, L(65536), 1, -1, L(2), 0]
FLOATS = [0.1, 1e300, -1e300, NAN, INF, -INF, -0.0, 1e-5, 0.0, 1.0]
OIDS = [OID(bytes([0] * 11 + [i])) for i in range(4)]
HUGE = [1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) - 1, 1 << 33, 1 << 53, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
RES = [("a", ""), ("^a", ""), ("b$", ""), ("a.*b", ""), (".", ""), ("A", "i"), ("", ""), ("^$", ""), ("a b", "x"), ("b", "m"), ("^b*$", ""),
       ("^a$", "m"), ("^b", "m"), ("^b", ""), ("a$", "m"), ("a.b", ""), ("a.b", "s"), ("a.*b$", "ms"), ("^.$", "s"), ("a*b", "U"), ("a", "u"), ("A .B", "isx"), ("B$", "im"), ("a b", "x"), ("a b", ""), ("bb*", ""), ("AB*", "iU")]
BADRES = [("(", ""), ("[", ""), ("*a", ""), ("a", "q"), ("a", "iq"), ("a", "I"), ("a", "g"), ("(", "i")]
COMMON = [0, 1, 2, 3, L(1), L(2), 1.0, 2.5, "a", "b", "ab", "", None, True, False]
ODD = [DT(0), DT(1000), DT(-5), DT(1700000000000), TS((1, 2)), TS((4000000000, 7)), BIN((0, b"")), BIN((0, b"ab")), BIN((5, b"ab")), DEC(bytes(16)),
       SYM("a"), UND, MIN, MAX, JS("f"), RE(("a", "")), OIDS[0], OIDS[1], 0.25, NAN, -0.0, INF, L(9223372036854775807), 2147483647,
       JW(("f", {})), JW(("f", {"x": 1})), JW(("f", {"x": 1.0})), JW(("g", {"x": 1})), DBP(("t", b"0" * 12)), DBP(("t", b"1" * 12)), BIN((2, b"ab")), BIN((4, b"a" * 16)), BIN((128, b"ab"))]
KEYODD = [DT(0), DT(-5), DT(1700000000000), TS((1, 2)), TS((4000000000, 7)), SYM("a"), UND, DEC(bytes(16)), DEC(bytes([1] * 16)), OIDS[0], OIDS[1],
          0.25, NAN, -0.0, 0.0, INF, L(9223372036854775807), 2147483647, -2147483648, L(-1), 1e300, "", "a\0b", "日本", True, False]
LONGSTR = ["k" * 255, "k" * 256, "k" * 256 + "a", "k" * 300, "k" * 300 + "b"]
NEAR = [DT(1), DT(1001), DT(1000), DT(1700000000001), TS((1, 1)), TS((2, 1)), L(9007199254740992), L(9007199254740993), 9007199254740992.0, 0.1, 0.10000000000000002, 1.0, 1.0000000000000002, -2, L(-2), -256, 255, 256, 257, 65536, -1.5, -2.5,
        OID(bytes([255] * 12)), OID(bytes([255] * 11 + [254])), "A", "a\0", "a\0c", "Ā", "é"]
KEYODD += LONGSTR + NEAR
ODD += LONGSTR[:3] + NEAR
NOKEY = [[1], {"x": 1}, BIN((0, b"a")), RE(("a", "")), MIN, MAX, JS("f"), JW(("f", {"x": 1})), DBP(("t", b"0" * 12)), [], {}]
HUGESTR = ["~" * 65535, "~" * 65536, "~" * 65537, "~" * 65536 + "a", "a" + "~" * 70000, "~" * 16384, "~" * 4096 + "b", "~" * (1 << 20)]
REFS = [{"$ref": "t", "$id": 1}, {"$id": 1, "$ref": "t"}, {"$ref": "t", "$id": 1.0}, {"$ref": "t"}, {"$id": 1}, {"$db": "x"}, {"$ref": "t", "$id": 1, "$db": "x"}, {"$id": 2, "x": 1}, {"x": 1, "$ref": "t", "$id": 1}]
ODDNAMES = ["t", "t1", "t10", "tt", "T", "a b", "_", "日本", "é", "n" * 120, "t_1", "x-y", "$TABLE", "$I", "a.b", "a\0b", "t\n", "\t", "r\r", ""]

def near(r, v):
    """a value of the same kind (or an equal number of another) that differs in one place"""
    def flip(b):
        if not b: return b + b"\1"
        i = r.randrange(len(b)); m = r.choice([1, 0x80, 0x10])
        return b[:i] + bytes([b[i] ^ m]) + b[i + 1:]
    clip = lambda n: max(-(1 << 63), min((1 << 63) - 1, n))
    if isinstance(v, DT): return DT(clip(v + r.choice([1, -1, 1000, 1 << 32, -(1 << 32), 256])))
    if isinstance(v, TS):
        return TS(r.choice([((v[0] + d) % (1 << 32), v[1]) for d in (1, 65536, 1 << 31, 256)] + [(v[0], (v[1] + d) % (1 << 32)) for d in (1, 65536, 1 << 31)] + [(v[1], v[0])]))
    if isinstance(v, DEC): return DEC(flip(v))
    if isinstance(v, OID): return OID(flip(v))
    if isinstance(v, BIN): return BIN(r.choice([((v[0] + 1) % 6 if v[0] != 1 else 3, v[1]), (v[0], flip(v[1])), (v[0], v[1] + b"\0")])) if v[0] in (0, 5) and r.random() < 0.6 else BIN((v[0] if v[0] != 2 else 0, flip(v[1])))
    if isinstance(v, (SYM, JS)): return type(v)(near(r, str(v)))
    if isinstance(v, bool): return not v
    if isinstance(v, int):
        if r.random() < 0.2 and abs(v) < 1 << 53: return float(v)
        if r.random() < 0.2 and abs(v) <= 2147483647: return int(v) if isinstance(v, L) else L(v)
        n = clip(v + r.choice([1, -1, 256, -256, 65536, 1 << 31, 1 << 32, -(1 << 32)])) if r.random() < 0.8 else -v if v > -(1 << 63) else v
        return L(n) if isinstance(v, L) or abs(n) > 2147483647 else n
    if isinstance(v, float):
        if v != v: return v
        import math
        return r.choice([-v, math.nextafter(v, INF), math.nextafter(v, -INF), v * 2])
    if isinstance(v, str):
        if not v: return r.choice(["\0", "a", " "])
        i = r.randrange(len(v))
        return r.choice([v[:i] + chr(max(1, ord(v[i]) ^ 1)) + v[i + 1:], v + r.choice(["a", "\0", " "]), v[:-1], v.swapcase(), v[:i] + v[i:].upper()])
    return v


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = dict(DEFAULT, **PROFILES[prof])
        self.prof = prof
        # often only a few unusual values, which then meet each other
        self.keyodd = self.r.sample(KEYODD, 6) if self.r.random() < 0.6 else KEYODD
        self.odd = self.r.sample(ODD, 7) if self.r.random() < 0.5 else ODD
        self.oddids = []
        self.huge = [] if self.r.random() >= self.p["huge"] else self.r.sample(HUGESTR, 3)
        self.big = self.r.random() < self.p["big"]

    def ch(self, p):
        return self.r.random() < p

    # ---------------------------------------------------------------- values
    def scalar(self):
        r = self.r
        if self.huge and r.random() < 0.12: return r.choice(self.huge)
        x = r.random()
        if x < self.p["odd"]:
            v = r.choice(self.odd)
            return near(r, v) if r.random() < 0.12 else v
        return r.choice(COMMON)

    def value(self, depth=0):
        r = self.r
        x = r.random()
        if depth < 2 and x < self.p["nest"]:
            if r.random() < 0.5:
                return [self.value(depth + 1) for _ in range(r.randint(0, 3))]
            return {r.choice(["x", "y", "b"]): self.value(depth + 1) for _ in range(r.randint(0, 2))}
        return self.scalar()

    def field(self, k):
        r = self.r
        if self.p["refs"] and k in ("a", "b", "arr", "d") and r.random() < self.p["refs"]:
            v = r.choice(REFS)
            return [v, 1] if k == "arr" else v
        if k in ("a", "b"):
            return self.value()
        if k == "n":
            return r.choice(NUMS)
        if k == "g":
            return r.choice(BIGS)
        if k in "s" and self.huge and r.random() < 0.3: return r.choice(self.huge)
        if k == "s":
            return r.choice(STRS) if r.random() < 0.9 else r.choice([None, 1, SYM("ab"), ["a", "b", 1], []])
        if k == "arr":
            return [self.value(1) for _ in range(r.randint(0, 3))] if r.random() < 0.9 else r.choice([None, 1])
        if k == "d":
            if r.random() < 0.15:
                return self.scalar()
            d = {}
            if r.random() < 0.85: d["x"] = self.value(1)
            if r.random() < 0.5: d["y"] = {"z": self.value(1)} if r.random() < 0.8 else self.scalar()
            return d
        if k == "f":
            return r.choice(FLOATS)
        if k == "u":
            return r.choice(USTRS)
        return self.scalar()

    def doc_id(self):
        r = self.r
        if self.huge and r.random() < 0.1: return r.choice(self.huge)
        x = r.random()
        if x < self.p["no_id"]:
            return "none" if r.random() < 0.7 else "null"
        if x < self.p["no_id"] + self.p["odd_id"]:
            v = r.choice(self.keyodd)
            if r.random() < 0.45:      # an id next to another
                v = near(r, r.choice(self.oddids) if self.oddids else v)
            self.oddids = (self.oddids + [v])[-4:]
            return v
        return r.randint(1, self.p["ids"])

    def doc(self):
        r = self.r
        d = {}
        i = self.doc_id()
        first = r.random() < 0.8
        if i == "null": i = None
        if first and i != "none": d["_id"] = i
        for k in r.sample(self.p["fields"], r.randint(min(1, len(self.p["fields"])), min(len(self.p["fields"]), 5))):
            d[k] = self.field(k)
        if not first and i != "none":
            items = list(d.items())
            items.insert(r.randint(0, len(items)), ("_id", i))
            d = dict(items)
        if self.ch(self.p["bad_id"]):
            d["_id"] = r.choice(NOKEY)
        return d

    def known(self, c, path):
        """a value some document has (or had) at the path"""
        docs = self.docs.get(c)
        if not docs:
            return None
        for _ in range(4):
            v = self.r.choice(docs)
            ok = True
            for k in path.split("."):
                if isinstance(v, dict) and k in v:
                    v = v[k]
                else:
                    ok = False
                    break
            if ok and not isinstance(v, dict):
                return (v,)
        return None

    PATHS = {"a": ["a"], "b": ["b"], "n": ["n"], "g": ["g"], "s": ["s"], "arr": ["arr"], "d": ["d.x", "d.x", "d.y.z", "d", "d.y"], "f": ["f"], "u": ["u"]}

    def path(self):
        r = self.r
        if r.random() < 0.05:
            return r.choice(["zz", "a.q", "d.x.q", "d.zz"])
        return r.choice(self.PATHS[r.choice(self.p["fields"])])

    def safe(self, v):
        """literals that compare without an error"""
        return not isinstance(v, (dict, list, tuple, SYM, DEC, JS, JW, DBP)) and v is not MIN and v is not MAX or isinstance(v, BIN)

    def operand(self, c, path):
        r = self.r
        k = self.known(c, path) if r.random() < 0.7 else None
        v = k[0] if k else self.field(path.split(".")[0]) if r.random() < 0.6 else self.scalar()
        if self.safe(v) or r.random() < self.p["hazard"]:
            return v
        return r.choice(COMMON)

    # ---------------------------------------------------------------- filters
    def opdoc(self, c, path, depth=0):
        r = self.r
        d = {}
        for _ in range(1 if r.random() < 0.75 else 2):
            op = r.choice(["$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$nin", "$in", "$nin", "$all", "$size", "$regex", "$not"])
            if op in ("$eq", "$ne", "$gt", "$gte", "$lt", "$lte"):
                d[op] = self.operand(c, path)
            elif op in ("$in", "$nin", "$all"):
                l = [self.member(c, path) for _ in range(r.randint(0, 3))]
                d[op] = l
            elif op == "$size":
                if not (path == "arr" or r.random() < self.p["hazard"]): continue
                d[op] = L(r.randint(0, 3))
            elif op == "$regex":
                if path == "u" : continue
                d[op] = RE(r.choice(RES))
                if r.random() < self.p["hazard"]: d[op] = RE(r.choice(BADRES))
            elif op == "$not" and depth < 2:
                x = self.opdoc(c, path, depth + 1)
                k = list(x.items())[:1]
                d[op] = dict(k)
        return d

    def member(self, c, path):
        r = self.r
        x = r.random()
        if x < 0.6:
            k = self.known(c, path)
            if k:
                v = k[0]
                if isinstance(v, list) and v and r.random() < 0.7: v = r.choice(v)
                return v if not (isinstance(v, dict) and any(str(q).startswith("$") for q in v)) else 1
        if x < 0.68 and path != "u":
            return RE(r.choice(RES))
        if x < 0.72 and r.random() < 0.3: return {"x": self.scalar()}
        if x < 0.725 + self.p["refs"]: return r.choice(REFS)
        return self.scalar()

    def pred(self, c, depth):
        r = self.r
        x = r.random()
        if depth > 0 and x < 0.16:
            return (r.choice(["$or", "$and", "$or"]), [self.filt(c, depth - 1) for _ in range(r.choice([1, 2, 2, 3]) if r.random() < 0.93 else 0)])
        p = self.path()
        if x < 0.5:
            return (p, self.lit(c, p))
        return (p, self.opdoc(c, p))

    def lit(self, c, p):
        v = self.operand(c, p)
        if isinstance(v, (list, dict)) and not self.ch(self.p["invalid"]):
            v = self.r.choice(COMMON)
        return v

    def filt(self, c, depth=2, ids=True):
        r = self.r
        x = r.random()
        q = {}
        if x < 0.08:
            return q
        if ids and x < 0.08 + self.p["by_id"]:
            if r.random() < 0.8:
                q["_id"] = self.some_id(c)
            else:
                q["_id"] = {r.choice(["$gt", "$lte", "$in", "$ne"]): 0}
                k = list(q["_id"])[0]
                q["_id"] = {k: [self.some_id(c), self.some_id(c)] if k == "$in" else self.some_id(c)}
            if r.random() < 0.7:
                return q
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            k, v = self.pred(c, depth)
            if k not in q: q[k] = v
        if r.random() < 0.3:
            items = list(q.items()); r.shuffle(items); q = dict(items)
        if self.ch(self.p["invalid"]):
            q = self.bad_filter(q)
        return q

    def some_id(self, c):
        docs = self.docs.get(c)
        if docs and self.r.random() < 0.8:
            d = self.r.choice(docs)
            if d.get("_id") is not None and self.safe_id(d["_id"]): return d["_id"]
        return self.r.randint(1, self.p["ids"])

    def safe_id(self, v):
        return not isinstance(v, (list, dict)) or self.ch(0.2)

    def anyval(self):
        """a value of any kind, as an operand in the wrong place"""
        r = self.r
        return r.choice([None, True, 0, 1, -1, 2, L(1), L(-1), L(3), 1.0, -1.5, "x", "", "$n", "$", [], [1], [[1]], [{"a": 1}], {}, {"x": 1}, {"$gt": 1}, {"$abs": 1}, DT(0), TS((1, 2)), BIN((0, b"a")), DEC(bytes(16)),
                         SYM("a"), UND, MIN, MAX, JS("f"), JW(("f", {"x": 1})), DBP(("t", b"0" * 12)), RE(("a", "")), OIDS[0], NAN, INF])

    def bad_filter(self, q):
        r = self.r
        q = dict(q)
        if r.random() < 0.5:
            op = r.choice(["$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$nin", "$exists", "$size", "$regex", "$not", "$and", "$or", "$type", "$elemMatch"])
            v = self.anyval()
            if r.random() < 0.25: q[op] = v
            else: q[r.choice(["a", "n", "s", "arr", "_id", "d.x"])] = {op: v}
            return q
        k, v = r.choice([("a", {"$foo": 1}), ("$foo", 1), ("$and", 1), ("$or", {"a": 1}), ("$and", [1]), ("a", {"$in": 1}), ("a", {"$nin": {"x": 1}}),
                         ("arr", {"$size": "x"}), ("arr", {"$size": 1}), ("s", {"$regex": "a"}), ("s", {"$regex": 1}), ("a", {"$not": 1}), ("a", {"$not": {"$foo": 1}}), ("a", [1, 2]),
                         ("_id", [1]), ("_id", RE(("a", ""))), ("_id", BIN((0, b"a"))), ("$not", {"a": 1}), ("$nor", [{"a": 1}]), ("a", {"$all": 1}), ("a", {"x": 1}),
                         ("s", {"$in": [RE(("(", ""))]}), ("a", {"$in": [{"$gt": 1}]}), ("$or", [{"a": {"$foo": 1}}]), ("b", {"$exists": True}), ("b", {"$eq": 1, "$foo": 2})])
        q[k] = v
        return q

    # ---------------------------------------------------------------- updates
    def small(self):
        return self.r.choice([0, 1, 2, -1, 3, L(1), L(2), 1.0, 2.0, 0.5, -0.25])

    def anyfloat(self):
        r = self.r
        return r.choice([0.1, 0.25, -0.5, 1.5, 3, -2, L(7), 1e300, 1e-5, -0.0, INF, 1e-320, r.uniform(-10, 10), r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300), L(9007199254740993), 2147483647])

    def upd(self):
        r = self.r
        u = {}
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            op = r.choice(self.p["upd_ops"])
            m = {}
            for _ in range(r.choice([1, 1, 2])):
                f = r.choice(self.p["upd_fields"])
                if op == "$set": m[f] = self.field(f) if f in "abngs" or f in("arr","d","f","u") else self.value()
                elif op == "$unset": m[f] = r.choice(["", 1, None])
                elif op == "$inc":
                    if f in ("a", "b", "s", "arr") and r.random() < 0.8: f = r.choice(["n", "g", "cnt", "f"])
                    m[f] = r.choice([1, -1, L(1), 2147483647, L(9223372036854775807), -2]) if f == "g" else self.anyfloat() if f == "f" or r.random() < 0.1 else self.small()
                elif op == "$mul":
                    if f not in ("n", "g", "cnt", "f"): f = r.choice(["n", "g", "cnt", "f"])
                    m[f] = self.anyfloat() if f == "f" or r.random() < 0.15 else r.choice([2, -1, L(2), 0, 65536, L(65536)]) if f == "g" else r.choice([2, -1, 0, L(2), 2.0, 3])
                elif op in ("$max", "$min"):
                    if f in ("arr", "d") and r.random() < 0.8: f = r.choice(["n", "g", "s"])
                    m[f] = self.field(f)
                elif op == "$rename":
                    m[f] = r.choice(["a", "b", "n2", "zz", "d", f + "r", "x.y"])
                elif op == "$push":
                    if f in ("n", "s", "g") and r.random() < 0.8: f = "arr"
                    m[f] = self.value(1)
                elif op == "$pop":
                    if f in ("n", "s", "g") and r.random() < 0.8: f = "arr"
                    m[f] = r.choice([1, -1, L(1), L(-1)])
            u[op] = m
        if self.ch(self.p["bad_upd"] * 0.5):
            op = r.choice(ALL_UPD)
            u[op] = self.anyval() if r.random() < 0.2 else {r.choice(["a", "n", "s", "arr", "d", "_id", "zz", "d.x", "", "$a", "a.0"]): self.anyval()}
        elif self.ch(self.p["bad_upd"]):
            k, v = r.choice([("$foo", {"a": 1}), ("$set", 1), ("$set", {"_id": 9}), ("$unset", {"_id": 1}), ("$inc", {"_id": 1}), ("$inc", {"a": "x"}), ("$mul", {"zz": None}),
                             ("$rename", {"a": 1}), ("$rename", {"a": "_id"}), ("$rename", {"_id": "a"}), ("$pop", {"arr": 2}), ("$pop", {"arr": "1"}), ("$push", {"_id": 1}), ("$pop", {"_id": 1}),
                             ("a", 1), ("$push", 3), ("$unset", "a"), ("$max", {"_id": 0}), ("$min", []), ("$inc", {"zz": [1]}), ("$inc", {"n": True})])
            u[k] = v
        return u

    def upsert_q(self, c):
        r = self.r
        q = {}
        if r.random() < 0.6: q["_id"] = r.randint(1, self.p["ids"] + 3)
        for f in r.sample(["a", "n", "s", "g"], r.randint(0, 2)):
            if f in self.p["fields"]:
                v = self.field(f)
                if self.safe(v) and not isinstance(v, (list, dict)): q[f] = v
        return q

    # ---------------------------------------------------------------- find options, pipelines
    def sort(self):
        r = self.r
        d = {}
        for f in r.sample(self.p["sort_fields"], min(len(self.p["sort_fields"]), r.choice([1, 1, 2, 3]))):
            d[f] = r.choice([1, -1, L(1), L(-1)])
        return d

    def opts(self, o):
        r = self.r
        if r.random() < 0.8: o["sort"] = j(self.sort())
        if r.random() < 0.5: o["skip"] = r.choice([0, 1, 2, 3, 5, 50])
        if r.random() < 0.5: o["limit"] = r.choice([0, 1, 2, 3, 5, 50])
        for k in ("skip", "limit"):      # more than 32 bits, more than 63
            if k in o and r.random() < 0.15: o[k], o[k + "x"] = 1000000, str(r.choice(HUGE))
        if self.ch(self.p["invalid"]): o["sort"] = j(r.choice([{"n": 2}, {"n": "x"}, {"n": 0}, {"n": 1.0}, {"n": None}, {"n": 1, "a": 2}, {"n": True}, {"a": L(0)}, {"a": L(-2)}, {"a": [1]}, {"a": {"$meta": 1}}, {"_id": "1"}]))
        return o

    def stage(self, i, c):
        r = self.r
        k = r.choice(["$sort", "$skip", "$limit", "$limit", "$count", "$unset", "$addFields", "$group", "$match"])
        if k == "$match":
            if i == 0: return {"$match": self.filt(c, 1)}
            k = "$sort"
        if k == "$sort": return {k: self.sort()}
        if k in ("$skip", "$limit"): return {k: r.choice([0, 1, 2, 3, L(1), L(4), 30] if r.random() < 0.85 else [L(x) for x in HUGE[:-2]] + [2147483647])}
        if k == "$count": return {k: r.choice(["n", "total", "a"])}
        if k == "$unset": return {k: r.choice(["a", "n", ["n", "a"], ["zz"], "_id", [], "d.x"])}
        if k == "$addFields":
            d = {}
            for f in r.sample(["k1", "k2", "n", "a"], r.choice([1, 1, 2])):
                d[f] = r.choice([1, "c", None, "$n", "$a", "$zz", {"$abs": "$n"}, {"$abs": "$g"}, {"$abs": -3}, {"$abs": {"$abs": "$n"}}, {"$abs": "$zz"}, [1], {"$abs": None}, "$k9"])
            # several fields never refer to each other
            refs = [v for v in d.values() if isinstance(v, str) and v.startswith("$")]
            if any(v[1:] in d for v in refs): d = {"k1": 7}
            return {k: d}
        if k == "$group":
            d = {"_id": r.choice([None, 1, "all", "x"])}
            for f in r.sample(["t1", "t2"], r.choice([1, 2])):
                d[f] = r.choice([{"$sum": 1}, {"$sum": "$n"}, {"$sum": "$zz"}, {"$sum": L(2)}, {"$sum": {"$abs": "$n"}}, {"$sum": 0.5}, {"$sum": "$s"}, {"$sum": "$g"}, {"$sum": "$f"}, {"$abs": {"$sum": "$n"}}, {"$abs": -4}, {"$sum": "x"}])
            return {k: d}

    def pipe(self, c):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
        st = [self.stage(i, c) for i in range(n)]
        if n and r.random() < 0.4 and "$match" not in st[0]: st.insert(0, {"$match": self.filt(c, 1)})
        if self.big:    # which rows a limit takes is open, and so is a sort of them: too many cases
            cut = next((i for i, x in enumerate(st) if "$limit" in x or "$skip" in x), len(st))
            st = st[:cut + 1] + [x for x in st[cut + 1:] if "$sort" not in x and "$group" not in x]
        if self.ch(self.p["invalid"] * 0.6):
            k, v = r.choice(["$sort", "$skip", "$limit", "$count", "$unset", "$addFields", "$group", "$match", "$foo"]), self.anyval()
            if r.random() < 0.4 and k in ("$sort", "$addFields", "$group", "$match"):
                v = {r.choice(["_id", "n", "x", "d.x", "$n", ""]): self.anyval()}
                if k == "$group" and r.random() < 0.7: v = {"_id": None, **{f: {"$sum": x} if r.random() < 0.5 else x for f, x in v.items() if f != "_id"}}
            st.insert(r.randint(0, len(st)), {k: v})
        elif self.ch(self.p["invalid"]):
            st.insert(r.randint(0, len(st)), r.choice([{}, {"$foo": 1}, {"$limit": 1, "$skip": 1}, {"$sort": 1}, {"$sort": {"n": "x"}}, {"$sort": {"n": 2}}, {"$limit": "1"}, {"$skip": None}, {"$limit": -1}, {"$skip": L(-1)},
                                                        {"$count": 1}, {"$unset": 1}, {"$unset": [1]}, {"$addFields": 1}, {"$addFields": {"x": {"$foo": 1}}}, {"$group": {"x": {"$sum": 1}}}, {"$group": {"_id": None, "x": 1}},
                                                        {"$group": 1}, {"$addFields": {"x": {"$abs": "n"}}}, {"$addFields": {"x": {}}}, {"$addFields": {"x": {"$abs": 1, "$sum": 1}}}, {"$match": 1}, {"a": 1}]))
        return st

    # ---------------------------------------------------------------- operations
    def coll(self):
        return self.r.choice(self.p["colls"])

    def named(self, o, c):
        o["c"] = c
        if not c.isascii() or not c.replace("_", "").isalnum() : o["cb"] = list(c.encode())
        if c == "": o.pop("cb", None)
        return o

    def note(self, c, d):
        self.docs.setdefault(c, []).append(d)

    def op(self, name, s=0, c=None):
        r = self.r
        c = self.coll() if c is None else c
        o = {"op": name, "s": s}
        self.named(o, c)
        if name == "insert_one":
            d = self.doc(); self.note(c, d); o["doc"] = j(d)
        elif name == "insert_many":
            ds = [self.doc() for _ in range(r.randint(1, self.p["many"]))]
            for d in ds: self.note(c, d)
            o["docs"] = [j(d) for d in ds]
        elif name == "find":
            o["q"] = j(self.filt(c))
            if self.ch(self.p["opts"]): self.opts(o)
            if self.ch(self.p["typed"]): o["typed"] = 1
        elif name in ("find_one", "delete_one", "delete_many"):
            o["q"] = j(self.filt(c))
        elif name == "aggregate":
            o["pipe"] = [j(x) for x in self.pipe(c)]
        elif name in ("update_one", "update_many"):
            if self.ch(self.p["upsert"]):
                q = self.upsert_q(c); o["upsert"] = 1
            else:
                q = self.filt(c)
            u = self.upd()
            o["q"] = j(q); o["u"] = j(u)
            if isinstance(u.get("$set"), dict): self.note(c, {k: v for k, v in u["$set"].items()})
        elif name == "create_index":
            f = r.choice(self.p["idx_fields"])
            keys = {f: r.choice([1, 1, 1, L(1)])}
            if self.ch(self.p["bad_idx"]):
                keys = r.choice([{}, {"a": 1, "b": 1}, {"a": -1}, {"a": "x"}, {"a": 1.0}, {"a": 2}, {"a": 0}, {"a": L(-1)}, {"a": L(2)}, {"a": True}, {"a": None}, {"a": {}}, {"a": 1, "n": -1}])
            o["keys"] = j(keys)
            if r.random() < self.p["unique"]: o["unique"] = 1
            elif r.random() < 0.2: o["unique"] = 0
            x = r.random()
            if x < 0.2: o["name"] = list(r.choice(["i1", "i2", "a_1"]).encode())
            if len(keys) == 1 and self.ch(self.p["bad_idx"]): o["name"] = list(r.choice(["$x", "a.b", "a\0", "x\n", "x\t", "\r", "x.", "\0"]).encode())
        elif name == "drop_index":
            o["name"] = list((r.choice(self.p["idx_fields"]).replace(".", "_") + "_1" if r.random() < 0.7 else r.choice(["i1", "i2", "zz"])).encode())
        elif name == "create_coll" :
            o["s"] = 0
        elif name in ("list", "dump"):
            return {"op": name, "s": s if name == "list" else 0}
        return o

    def all(self, s, c):
        return self.named({"op": "find", "s": s, "q": j({})}, c)

    def recycle(self, ops, s, c=None, f=None):
        """documents go, and others with their ids or values come: nothing may be left of the old ones"""
        r, c = self.r, c or self.coll()
        f = f or r.choice([x for x in self.p["idx_fields"] if "." not in x])
        have = [d for d in self.docs.get(c, []) if d.get("_id") is not None and f in d and not isinstance(d[f], (list, dict)) and not isinstance(d["_id"], (list, dict))]
        if not have: return
        old = r.sample(have, min(len(have), r.choice([1, 1, 2])))
        x = r.random()
        add = lambda o, **k: ops.append(self.named(dict({"op": o, "s": s}, **k), c))
        if self.ch(0.4): add("create_index", keys=j({f: 1}), **({"unique": 1} if self.ch(self.p["unique"]) else {}))
        for d in old:
            if x < 0.35: add("delete_many", q=j(r.choice([{}, {}, {f: {"$ne": 12345}}, {"_id": {"$ne": 77}}]))); break
            elif x < 0.6: add(r.choice(["delete_one", "delete_many"]), q=j(r.choice([{"_id": d["_id"]}, {f: d[f]}, {"_id": d["_id"], f: d[f]}])))
            elif x < 0.85: add(r.choice(["update_one", "update_many"]), q=j(r.choice([{"_id": d["_id"]}, {f: d[f]}])), u=j(r.choice([{"$unset": {f: ""}}, {"$set": {f: self.field(f)}}, {"$rename": {f: "b"}}, {"$set": {f: None}}])))
            else: add("drop"); break
        if x >= 0.85 or self.ch(0.3): add("create_index", keys=j({f: 1}), **({"unique": 1} if self.ch(self.p["unique"]) else {}))
        new = []
        for d in old:
            y = r.random()
            if y < 0.6: n = {"_id": d["_id"], f: self.field(f)}
            elif y < 0.8: n = {"_id": d["_id"]}
            else: n = {"_id": self.r.randint(20, 40), f: d[f]}
            new.append(n); self.note(c, n)
        if self.ch(0.5): add("insert_many", docs=[j(n) for n in new])
        else:
            for n in new: add("insert_one", doc=j(n))
        for d in old + new:
            if f in d: add("find", q=j({f: d[f]}))
        if self.ch(0.3): add("find", q=j({}))

    def leftover(self, ops, t):
        """an index is dropped while others write what is in it; later there is an index again"""
        r, c = self.r, self.coll()
        f = r.choice([x for x in self.p["idx_fields"] if "." not in x])
        v, w = self.field(f), self.field(f)
        i = r.randint(1, 60)
        add = lambda o, s, **k: ops.append(self.named(dict({"op": o, "s": s}, **k), c))
        index = lambda: add("create_index", 0, keys=j({f: 1}), **({"unique": 1} if self.ch(self.p["unique"]) else {}))
        def change(s):
            x = r.random()
            if x < 0.4: add("insert_one", s, doc=j({"_id": i, f: v}))
            elif x < 0.6: add("update_one", s, q=j({"_id": i}), u=j({"$set": {f: v}}), upsert=1)
            else: add("delete_one", s, q=j({"_id": i}))
        if self.ch(0.5): add("insert_one", 0, doc=j({"_id": i, f: r.choice([v, w])}))
        index()
        ops.append({"op": "begin", "s": t})
        if self.ch(0.3): add(r.choice(["delete_one", "find"]), t, q=j({"_id": 70}))
        change(0)
        if self.ch(0.3): change(r.choice([0, t]))
        if self.ch(0.75): add("drop_index", t, name=list((f + "_1").encode()))
        else: add("drop", t)
        ops.append({"op": r.choice(["commit", "commit", "commit", "commit", "rollback"]), "s": t})
        ops.append({"op": "abandon", "s": t})
        for _ in range(r.choice([0, 1, 1, 1])):
            if r.random() < 0.5: add("delete_one", 0, q=j({"_id": i}))
            else: add("update_one", 0, q=j({"_id": i}), u=j({"$set": {f: w}}))
        index()
        add("find", 0, q=j({f: v}))
        if self.ch(0.7): add("insert_one", 0, doc=j({"_id": i + 1 if self.ch(0.5) else i, f: v})); add("find", 0, q=j({f: v}))

    def overtake(self, ops, t, other):
        """a transaction that works on a collection in which others wrote since it began"""
        r, c = self.r, self.coll()
        f = r.choice([x for x in self.p["idx_fields"] if "." not in x])
        def do(names, s):
            k = r.choice(names)
            o = self.op(k, s, c)
            if k == "create_index": o["keys"] = j({f: 1}); o.pop("name", 0)
            if k == "drop_index": o["name"] = list((f + "_1").encode())
            ops.append(o)
        if self.ch(0.5): do(["create_index"], 0)
        ops.append({"op": "begin", "s": t})
        if self.ch(0.4): ops.append(self.op(r.choice(["find", "insert_one", "update_one", "delete_one"]), t, c if r.random() < 0.5 else None))
        for _ in range(r.choice([1, 1, 2])):
            do(["delete_one", "delete_one", "delete_many", "insert_one", "insert_many", "update_many", "drop", "create_index", "drop_index"], other)
        for _ in range(r.choice([1, 1, 2])):
            do(["drop", "drop", "drop_index", "drop_index", "create_index", "insert_one", "update_many", "delete_many"], t)
            if self.ch(0.4): do(["insert_one", "drop", "create_index", "delete_one"], t)
            ops.append(self.all(t, c))
        if self.ch(0.5): ops.append(self.all(0, c))
        ops.append({"op": r.choice(["commit", "commit", "commit", "rollback", "abandon"]), "s": t})
        if ops[-1]["op"] != "abandon": ops.append({"op": "abandon", "s": t})
        ops.append({"op": "dump"})
        if self.ch(0.5): self.recycle(ops, 0, c, f)

    def trace(self):
        p, r = self.p, self.r
        if p["badnames"]:
            p = self.p = dict(p, colls=p["colls"] * 2 + r.sample(["", "a$b", "$", "a.b", ".", "a\0b", "\0", "x\n", "x\t", "\ty", "r\r", "t\0", "t.", "$t"], 4))
        self.docs = {}
        ops = []
        for c in p["colls"]:
            if self.ch(p["preload"]):
                ds = []
                for i in range(r.randint(90, 220) if self.big else r.randint(1, p["load"])):
                    d = {f: self.field(f) for f in r.sample(p["fields"], min(2, len(p["fields"])))} if self.big else self.doc()
                    if not self.ch(p["dup"]): d["_id"] = i + 1
                    self.note(c, d); ds.append(d)
                if self.ch(p["pre_index"]): ops.append(self.op("create_index", 0, c))
                ops.append(self.named({"op": "insert_many", "s": 0, "docs": [j(d) for d in ds]}, c))
                if self.ch(p["pre_index"]): ops.append(self.op("create_index", 0, c))
        names = list(p["ops"]); weights = [p["ops"][n] for n in names]
        open_, curs, nt, nc = [], [], 0, 0
        n = r.randint(p["len"] // 2, p["len"])
        crowd = not self.big and self.ch(p["crowd"])      # many cursors and transactions at the same time
        if crowd: n *= 2
        max_txn, max_cur = (9, 16) if crowd else (p["max_txn"], 3)
        while len(ops) < n:
            k = r.choices(names, weights)[0]
            s = 0
            if open_ and self.ch(p["in_txn"]): s = r.choice(open_)
            if len(open_) < max_txn and self.ch(p["motif"]):
                nt += 1
                if self.ch(p["left"]): self.leftover(ops, nt)
                else: self.overtake(ops, nt, r.choice([0] + open_))
                continue
            if self.ch(p["cycle"]):
                self.recycle(ops, s)
                continue
            if k == "begin":
                if len(open_) >= max_txn: continue
                nt += 1; open_.append(nt); ops.append({"op": "begin", "s": nt})
            elif k in ("commit", "rollback", "abandon"):
                if not open_: continue
                s = r.choice(open_); open_.remove(s)
                ops.append({"op": k, "s": s})
                if k == "commit" and r.random() < 0.2 and p["after_commit"]:
                    # a finished transaction
                    o = self.op(r.choice(["insert_one", "find", "update_many", "delete_many"]), s)
                    ops.append(o)
                if k != "abandon": ops.append({"op": "abandon", "s": s})
                ops.append({"op": "dump"})
            elif k == "cur_open":
                if len(curs) >= max_cur: continue
                nc += 1
                c = self.coll()
                o = self.named({"op": "cur_open", "s": s, "cur": nc}, c)
                if r.random() < 0.3:
                    o["pipe"] = [j(x) for x in self.pipe(c)]
                else:
                    o["q"] = j(self.filt(c, 1) if r.random() < 0.6 else {})
                    if r.random() < 0.25: self.opts(o)
                curs.append(nc); ops.append(o)
                if r.random() < 0.5: ops += [{"op": "cur_next", "cur": nc}] * r.choice([1, 1, 2, 3])
                if s and r.random() < 0.2:      # an operation of its transaction fails while the cursor stands on what it wrote
                    k = len(ops) - 1
                    while ops[k]["op"] != "cur_open": k -= 1
                    ops.insert(k, self.named({"op": "insert_many", "s": s, "docs": [j({"_id": x}) for x in r.sample(range(-9, 40), r.choice([1, 4, 20]))]}, o["c"]))
                    ops.append(self.named({"op": "insert_many", "s": s, "docs": [j({"_id": x, "n": x}) for x in [50, 51, 52, 50]]}, o["c"]))
                    ops += [{"op": "cur_next", "cur": nc}] * r.choice([1, 2, 4, p["load"] + 25])
                elif s and r.random() < 0.3:      # the cursor of a transaction that ends
                    open_.remove(s)
                    ops.append({"op": r.choice(["commit", "rollback"]), "s": s})
                    if r.random() < 0.5: ops.append({"op": "abandon", "s": s})
                    ops += [{"op": "cur_next", "cur": nc}] * r.choice([2, 4, p["load"] + 3])
            elif k == "cur_next":
                if not curs: continue
                x = r.choice(curs)
                for _ in range(r.choice([1, 1, 2, 4])): ops.append({"op": "cur_next", "cur": x})
            elif k == "cur_drain":
                if not curs: continue
                x = r.choice(curs)
                for _ in range(p["load"] + 3 + (120 if self.big else 0)): ops.append({"op": "cur_next", "cur": x})
                curs.remove(x); ops.append({"op": "cur_close", "cur": x})
            elif k == "cur_close":
                if not curs: continue
                x = r.choice(curs); curs.remove(x); ops.append({"op": "cur_close", "cur": x})
            elif k == "reopen":
                open_, curs = [], []
                ops.append({"op": "reopen"})
                if r.random() < 0.3: ops.append({"op": "stale"})
                ops.append({"op": "dump"})
            else:
                o = self.op(k, s)
                ops.append(o)
                if k in WRITES:
                    if o["s"] == 0 and (o.get("upsert") or self.ch(p["dump"])): ops.append({"op": "dump"})
                    elif o.get("upsert") or self.ch(p["dump"]): ops.append(self.all(o["s"], o["c"]) if o["c"] in p["colls"] else {"op": "dump"})
                    if p["recheck"] and self.ch(p["recheck"]):
                        # look the values up, through the indexes there may be
                        for _ in range(r.choice([1, 2])):
                            f = r.choice(p["idx_fields"]); v = self.lit(o["c"], f)
                            ops.append(self.named({"op": "find", "s": o["s"], "q": j({f: v})}, o["c"]))
        if self.ch(0.5) and not p.get("no_reopen"):
            ops.append({"op": "reopen"})
        ops.append({"op": "dump"})
        return ops


WRITES = {"insert_one", "insert_many", "update_one", "update_many", "delete_one", "delete_many", "create_index", "drop_index", "drop", "create_coll"}
ALL_UPD = ["$set", "$unset", "$inc", "$mul", "$max", "$min", "$rename", "$push", "$pop"]
DEFAULT = dict(odd=0.08, nest=0.08, no_id=0.03, odd_id=0.03, bad_id=0.0, ids=9, fields=["a", "b", "n", "s", "arr", "d"], by_id=0.12, hazard=0.02,
               invalid=0.0, bad_upd=0.0, bad_idx=0.0, upd_ops=ALL_UPD, upd_fields=["a", "b", "n", "s", "arr", "g", "cnt"], opts=0.1,
               sort_fields=["n", "s", "a", "_id", "zz"], colls=["t"], idx_fields=["a", "n", "s", "d.x"], unique=0.3, preload=1.0, load=7, big=0.007, dup=0.0, pre_index=0.0,
               many=3, upsert=0.1, typed=0.06, len=16, max_txn=2, in_txn=0.0, after_commit=True, dump=0.5, recheck=0.0, motif=0.0, left=0.35, cycle=0.0, crowd=0.0, badnames=False, refs=0.0, huge=0.02, ops={})
CRUD = {"insert_one": 4, "insert_many": 2, "find": 5, "find_one": 1, "aggregate": 1, "count": 1, "update_one": 2, "update_many": 4, "delete_one": 1, "delete_many": 2}
PROFILES = {
    "insert": dict(cycle=0.01, odd=0.3, nest=0.2, no_id=0.15, odd_id=0.3, bad_id=0.02, ids=8, fields=["a", "b", "n", "g", "s", "arr", "d", "f", "u"], by_id=0.8, load=4, dup=0.5, many=4,
                   ops={"insert_one": 6, "insert_many": 4, "find": 5, "find_one": 2, "delete_many": 1, "reopen": 0.6}, dump=0.7, len=18, pre_index=0.1),
    "find": dict(refs=0.03, odd=0.15, nest=0.12, fields=["a", "b", "n", "g", "s", "arr", "d", "f", "u"], load=9, ops={"find": 12, "find_one": 2, "aggregate": 0.3, "count": 0.3, "insert_one": 0.5}, len=22, opts=0.03, hazard=0.02, by_id=0.08),
    "update": dict(cycle=0.01, fields=["a", "b", "n", "g", "s", "arr", "d", "f"], upd_fields=["a", "b", "n", "s", "arr", "g", "cnt", "f", "d"], load=5, ops={"update_one": 4, "update_many": 8, "find": 1, "insert_one": 1}, dump=1.0, upsert=0.15, len=20, bad_upd=0.05, pre_index=0.12),
    "delete": dict(cycle=0.03, load=9, ops={"delete_one": 4, "delete_many": 5, "insert_one": 4, "insert_many": 1, "find": 1, "count": 1, "create_index": 0.5}, dump=1.0, colls=["t", "u"], len=20, recheck=0.2),
    "index": dict(motif=0.008, left=0.7, cycle=0.06, load=6, pre_index=0.7, ops=dict(CRUD, create_index=2, drop_index=1), recheck=0.9, dump=0.3, unique=0.15, len=22, nest=0.04, odd=0.12, idx_fields=["a", "n", "s", "d.x", "g", "d.y.z"], fields=["a", "n", "g", "s", "d"],
                  upd_fields=["a", "n", "s", "g", "d"], by_id=0.05),
    "unique": dict(motif=0.008, left=0.7, cycle=0.04, load=4, pre_index=0.8, unique=0.85, ops=dict(CRUD, create_index=2, drop_index=0.7, reopen=0.3), recheck=0.4, dump=0.5, len=22, idx_fields=["a", "n", "d.x"], fields=["a", "n", "d"], upd_fields=["a", "n"],
                   upd_ops=["$set", "$set", "$unset", "$inc", "$max", "$rename"], nest=0.02, odd=0.1, upsert=0.2),
    "colls": dict(cycle=0.01, colls=ODDNAMES, preload=0.25, load=2, fields=["a", "n"], ops=dict(CRUD, create_coll=4, drop=4, list=3, create_index=2, drop_index=1, reopen=0.8), len=24, dump=0.6, upsert=0.3, unique=0.5),
    "recreate": dict(cycle=0.03, colls=["t", "u"], preload=0.9, load=3, ids=4, pre_index=0.8, unique=0.7, fields=["a", "n"], idx_fields=["a", "n"], upd_fields=["a", "n"], ops=dict(CRUD, insert_many=4, drop=5, create_index=5, create_coll=2, drop_index=1.5, list=1, reopen=0.5, begin=0.7, commit=0.7, rollback=0.5),
                     in_txn=0.3, max_txn=1, len=26, dump=0.6, recheck=0.6, nest=0.02, odd=0.04),
    # collections are dropped in transactions while others write in them
    "dropin": dict(colls=["t", "u"], preload=0.95, load=3, ids=4, fields=["a", "n"], idx_fields=["a", "n"], upd_fields=["a", "n"], pre_index=0.3, unique=0.3, opts=0.02, upsert=0.05, typed=0.02,
                   ops=dict(insert_one=4, insert_many=2, find=3, count=2, find_one=0.5, update_many=1.5, delete_one=4, delete_many=1.5, drop=4, create_coll=1, create_index=0.6, drop_index=0.4, list=1, begin=4, commit=2, rollback=0.7, abandon=0.4),
                   in_txn=0.6, max_txn=2, len=26, dump=0.3, by_id=0.3, nest=0.02, odd=0.04, motif=0.12),
    "sort": dict(load=12, fields=["a", "n", "s", "g", "f"], sort_fields=["n", "s", "a", "g", "_id", "zz"], ops={"find": 10, "aggregate": 2, "insert_many": 1, "update_many": 1}, opts=0.95, len=16, nest=0.03, odd=0.1, hazard=0),
    "agg": dict(load=7, fields=["a", "n", "s", "g"], ops={"aggregate": 12, "insert_one": 1, "delete_many": 0.3}, len=18, odd=0.05, nest=0.04, preload=0.95),
    "py": dict(huge=0, colls=["t", "u"], preload=0.6, load=5, odd=0.12, fields=["a", "b", "n", "g", "s", "arr", "d", "f", "u"], ops=dict(CRUD, aggregate=2.5, create_coll=0.7, list=0.7, create_index=0.3, reopen=0.6), upsert=0, opts=0, dump=0.3, len=26, bad_upd=0.03, invalid=0.03),
    "cursor": dict(crowd=0.04, cycle=0.005, load=7, ops=dict(CRUD, cur_open=6, cur_next=9, cur_drain=4, cur_close=1, create_index=0.6, drop_index=0.5, drop=0.4, begin=1.5, commit=0.5, rollback=0.3, abandon=0.2), in_txn=0.45, len=30, dump=0.2, pre_index=0.3, max_txn=1),
    "invalid": dict(refs=0.02, invalid=0.3, bad_upd=0.35, bad_idx=0.35, bad_id=0.15, hazard=0.15, colls=["t", "u"], badnames=True, ops=dict(CRUD, create_index=3, drop_index=1, drop=0.5, create_coll=1.5, list=1, reopen=0.5, begin=0.8, commit=0.6, rollback=0.4), in_txn=0.4, dump=0.8, len=22, opts=0.3, upsert=0.2),
    "atomic": dict(cycle=0.01, hazard=0.1, bad_id=0.1, dup=0.2, many=5, unique=0.7, pre_index=0.6, invalid=0.05, bad_upd=0.08, bad_idx=0.1, upd_fields=["a", "n", "s", "g", "arr"], colls=["t", "u"], preload=0.8,
                   ops=dict(insert_many=6, insert_one=2, update_many=6, update_one=2, delete_many=1, create_index=3, drop_index=0.7, drop=0.4, create_coll=1, find=1, begin=1, commit=1, rollback=0.4, abandon=0.3, reopen=0.2), in_txn=0.6, dump=1.0, len=22, upsert=0.1, max_txn=1),
    "crash": dict(cycle=0.02, colls=["t", "u"], preload=0.8, load=4, ids=6, many=4, fields=["a", "n", "s"], upd_fields=["a", "n", "s"], unique=0.4, pre_index=0.4, no_id=0.02, odd_id=0.02, nest=0.03,
                 ops=dict(insert_one=3, insert_many=4, update_one=2, update_many=4, delete_one=1, delete_many=2, create_index=1.5, drop_index=1, drop=0.8, create_coll=0.6, begin=4, commit=5, rollback=0.4, abandon=0.3, reopen=0.6),
                 in_txn=0.5, dump=0.15, len=14, max_txn=2, by_id=0.3, upsert=0.15, no_reopen=True),
    "txn": dict(crowd=0.03, cycle=0.01, colls=["t", "u"], preload=0.7, load=4, ids=5, ops=dict(CRUD, begin=4, commit=3, rollback=1, abandon=0.6, create_index=0.8, drop_index=0.5, drop=0.5, create_coll=0.4, list=0.8, reopen=0.2), in_txn=0.75, dump=0.25, len=26, max_txn=3, motif=0.02,
                fields=["a", "n", "s"], upd_fields=["a", "n", "s"], unique=0.5, pre_index=0.4, by_id=0.4),
}
