"""Tagged-JSON BSON values (see harness/src/j.rs and spec/Bson.tla)."""
import struct
class L(int):
    """an Int64"""
class OID(bytes):
    pass
class DT(int):
    pass
class TS(tuple):
    pass
class RE(tuple):
    pass
class BIN(tuple):
    """(subtype, bytes)"""
class SYM(str):
    pass
class DEC(bytes):
    pass
class JS(str):
    pass
class JW(tuple):
    """code with a scope: (code, dict)"""
class DBP(tuple):
    """a DBPointer: (name, 12 bytes)"""
class D(float):
    pass
class T:
    """a bare type: und, min, max"""
    def __init__(s, t): s.t = t
    def __repr__(s): return s.t
UND, MIN, MAX = T("und"), T("min"), T("max")

def key(k):
    return k.split('.')

def big(i):
    m = abs(i); l = []
    while m > 0:
        l.append(m % 10000); m //= 10000
    return [1 if i < 0 else 0, l]

def unbig(v):
    m = 0
    for x in reversed(v[1]): m = m * 10000 + x
    return -m if v[0] else m

def dkey(d):
    b = struct.unpack('>q', struct.pack('>d', d))[0]
    if b < 0: b = ~(b & 0x7fffffffffffffff)
    return [b >> 42, (b >> 21) & 0x1fffff, b & 0x1fffff]

def undkey(k):
    b = (k[0] << 42) | (k[1] << 21) | k[2]
    if b < 0: b = b ^ 0x7fffffffffffffff
    return struct.unpack('>d', struct.pack('>q', b))[0]

SMALL = 2147483647
def text(b):
    """bytes; a long run of ~ is written as ~ and a number (see short in j.rs).  The
    order stays what it is as long as nothing above ~ follows ~"""
    if b"~" * 1000 not in b: return list(b)
    out, i = [], 0
    while i < len(b):
        n = 0
        while i + n < len(b) and b[i + n] == 126: n += 1
        if n >= 1000: out += [126, 1000000 + n]; i += n
        else: out.append(b[i]); i += 1
    return out
def untext(l):
    out = b""
    for x in l: out += bytes([x]) if x < 256 else b"~" * (x - 1000001)
    return out

def j(v):
    if v is None: return ["n"]
    if isinstance(v, T): return [v.t]
    if isinstance(v, bool): return ["b", int(v)]
    if isinstance(v, L): return ["l", int(v)] if abs(v) <= SMALL else ["lx", big(v)]
    if isinstance(v, DT): return ["dt", int(v)] if abs(v) <= SMALL else ["dtx", big(v)]
    if isinstance(v, int): return ["i", int(v)] if abs(v) <= SMALL else ["ix", big(v)]
    if isinstance(v, float):
        v = float(v)
        q = v * 4
        if q == q and abs(q) < 1e9 and q == int(q) and not (v == 0 and str(v)[0] == '-'): return ["d", int(q)]
        return ["dx", dkey(v)]
    if isinstance(v, OID): return ["oid", list(v)]
    if isinstance(v, DEC): return ["dec", list(v)]
    if isinstance(v, SYM): return ["sym", list(v.encode())]
    if isinstance(v, JS): return ["js", list(v.encode())]
    if isinstance(v, JW): return ["jw", [list(v[0].encode()), j(v[1])]]
    if isinstance(v, DBP): return ["dbp", [list(v[0].encode()), list(v[1])]]
    if isinstance(v, str): return ["s", text(v.encode())]
    if isinstance(v, RE): return ["re", [list(v[0].encode()), list(v[1].encode())]]
    if isinstance(v, BIN): return ["bin", [[v[0]], list(v[1])]]
    if isinstance(v, TS): return ["ts", [big(v[0]), big(v[1])]]
    if isinstance(v, dict): return ["o", [[key(k), j(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)): return ["a", [j(x) for x in v]]
    raise TypeError(type(v))

def show(v):
    """compact text of a tagged value, for reports"""
    t = v[0]
    if t == "o": return "{" + ", ".join(".".join(k) + ": " + show(x) for k, x in v[1]) + "}"
    if t == "a": return "[" + ", ".join(show(x) for x in v[1]) + "]"
    if t == "s" and any(x > 255 for x in v[1]): return "s:" + "".join(chr(x) if x < 256 else "..." + str(x) for x in v[1])
    if t == "s": return repr(bytes(v[1]).decode(errors="replace"))
    if t == "i": return str(v[1])
    if t == "l": return str(v[1]) + "L"
    if t in("ix", "lx", "dtx"): return str(unbig(v[1])) + t
    if t == "d": return repr(v[1] / 4)
    if t == "dx": return repr(undkey(v[1])) + "f"
    if t == "b": return "true" if v[1] else "false"
    if t == "n": return "null"
    if t == "re": return "/" + bytes(v[1][0]).decode(errors="replace") + "/" + bytes(v[1][1]).decode(errors="replace")
    if t == "oid": return "oid:" + bytes(v[1]).hex()
    return t + ":" + str(v[1] if len(v) > 1 else "")

def show_ev(e):
    """a readable form of a recorded event"""
    out = {}
    for k, v in e.items():
        if k == "r":
            r = dict(v)
            for f in ("docs", "ids", "rows"):
                if isinstance(r.get(f), list): r[f] = [show(x) for x in r[f]]
            if "colls" in r: r["colls"] = {n: [show(x) for x in d] for n, d in r["colls"]}
            out[k] = r
        elif k in ("doc", "q", "u", "keys", "sort") and isinstance(v, list): out[k] = show(v)
        elif k in ("docs", "pipe") and isinstance(v, list): out[k] = [show(x) for x in v]
        elif k == "name" and isinstance(v, list): out[k] = bytes(v).decode(errors="replace")
        else: out[k] = v
    return out
