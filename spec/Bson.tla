-------------------------------- MODULE Bson --------------------------------
(* BSON values, their comparison and integer arithmetic.

   A value is a tuple <<tag, payload>> (or <<tag>>):
     i, l      Int32 / Int64 in the range of TLC's integers (|n| < 2^31)
     ix, lx    other Int32 / Int64: <<sign, limbs>>, base 10^4, least significant first
     d         a double which is a multiple of 1/4: payload is four times the value
     dx        any other double: three integers in the order of IEEE totalOrder
     s, sym    string, symbol: sequence of bytes           js   JavaScript code
     o         document: sequence of <<key, value>>, a key is the sequence of the
               segments between its dots (a stored key normally has one)
     a         array      b  Boolean (0/1)      n  null     und undefined
     dt, dtx   date (milliseconds)    ts  timestamp     oid 12 bytes
     re        <<pattern bytes, option bytes>>     bin <<<<subtype>>, bytes>>
     dec       Decimal128, 16 bytes    min, max   MinKey, MaxKey
     jw        code with a scope: <<code bytes, document>>
     dbp       DBPointer: <<name bytes, 12 bytes>>                    opq  other   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Doc(v) == v[1] = "o"
Arr(v) == v[1] = "a"
NullV == <<"n">>

Max2(a, b) == IF a > b THEN a ELSE b
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

(* The element type of BSON: values of types which can not be compared are ordered by it. *)
TypeByte(v) ==
  LET t == v[1] IN
  CASE t \in {"d", "dx"} -> 1 [] t = "s" -> 2 [] t = "o" -> 3 [] t = "a" -> 4
    [] t = "bin" -> 5 [] t = "und" -> 6 [] t = "oid" -> 7 [] t = "b" -> 8
    [] t \in {"dt", "dtx"} -> 9 [] t = "n" -> 10 [] t = "re" -> 11 [] t = "dbp" -> 12 [] t = "js" -> 13
    [] t = "jw" -> 15
    [] t = "sym" -> 14 [] t \in {"i", "ix"} -> 16 [] t = "ts" -> 17
    [] t \in {"l", "lx"} -> 18 [] t = "dec" -> 19 [] t = "max" -> 127 [] t = "min" -> 255
    [] OTHER -> 0

RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==   \* sequences of integers, lexicographically
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] # b[i] THEN Sgn(a[i], b[i])
  ELSE LexCmp(a, b, i + 1)

-----------------------------------------------------------------------------
(* Integers of any size: <<sign (0/1), limbs>>, no leading zero limb, zero is <<0, <<>>>>. *)
Base == 10000
RECURSIVE NatLimbs(_)
NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatLimbs(n \div Base)

RECURSIVE Trim(_)
Trim(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l

Limb(l, i) == IF i <= Len(l) THEN l[i] ELSE 0

RECURSIVE MagAddC(_, _, _, _)
MagAddC(a, b, i, c) ==
  IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Limb(a, i) + Limb(b, i) + c
       IN  <<s % Base>> \o MagAddC(a, b, i + 1, s \div Base)
MagAdd(a, b) == MagAddC(a, b, 1, 0)

RECURSIVE MagSubC(_, _, _, _)
MagSubC(a, b, i, c) ==   \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET s == Limb(a, i) - Limb(b, i) - c
       IN  <<s % Base>> \o MagSubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MagSub(a, b) == Trim(MagSubC(a, b, 1, 0))

RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) ==
  IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN Sgn(a[i], b[i]) ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) == IF Len(a) # Len(b) THEN Sgn(Len(a), Len(b)) ELSE MagCmpAt(a, b, Len(a))

RECURSIVE MagMul1(_, _, _, _)
MagMul1(a, m, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * m + c IN <<s % Base>> \o MagMul1(a, m, i + 1, s \div Base)
RECURSIVE MagMulAt(_, _, _)
MagMulAt(a, b, j) ==
  IF j > Len(b) THEN <<>>
  ELSE MagAdd(MagMul1(a, b[j], 1, 0),
              LET r == MagMulAt(a, b, j + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MagMul(a, b) == Trim(MagMulAt(a, b, 1))

BigOf(v) ==   \* an integer value
  IF v[1] \in {"ix", "lx"} THEN v[2]
  ELSE IF v[2] < 0 THEN <<1, NatLimbs(-v[2])>> ELSE <<0, NatLimbs(v[2])>>

Mk(s, m) == IF m = <<>> THEN <<0, <<>>>> ELSE <<s, m>>
BigCmp(a, b) ==
  IF a[1] # b[1] THEN (IF a[1] = 1 THEN -1 ELSE 1)
  ELSE IF a[1] = 0 THEN MagCmp(a[2], b[2]) ELSE MagCmp(b[2], a[2])
BigAdd(a, b) ==
  IF a[1] = b[1] THEN Mk(a[1], MagAdd(a[2], b[2]))
  ELSE IF MagCmp(a[2], b[2]) >= 0 THEN Mk(a[1], MagSub(a[2], b[2]))
  ELSE Mk(b[1], MagSub(b[2], a[2]))
BigMul(a, b) == Mk(IF a[1] = b[1] THEN 0 ELSE 1, MagMul(a[2], b[2]))

P31 == <<3648, 4748, 21>>                           \* 2^31
P63 == <<5808, 5477, 368, 3372, 922>>              \* 2^63
FitsIn(b, p) == IF b[1] = 0 THEN MagCmp(b[2], p) < 0 ELSE MagCmp(b[2], p) <= 0
Fits32(b) == FitsIn(b, P31)
Fits64(b) == FitsIn(b, P63)
TlcInt(b) == MagCmp(b[2], P31) < 0                  \* |b| < 2^31
RECURSIVE MagNat(_)
MagNat(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * MagNat(Tail(m))
Nat2Int(b) == IF b[1] = 1 THEN -MagNat(b[2]) ELSE MagNat(b[2])
Int32V(b) == IF TlcInt(b) THEN <<"i", Nat2Int(b)>> ELSE <<"ix", b>>
Int64V(b) == IF TlcInt(b) THEN <<"l", Nat2Int(b)>> ELSE <<"lx", b>>

-----------------------------------------------------------------------------
(* Numbers *)
SmallInt(v) == v[1] \in {"i", "l"}
IsInt(v) == v[1] \in {"i", "l", "ix", "lx"}
IsInt32(v) == v[1] \in {"i", "ix"}
IsInt64(v) == v[1] \in {"l", "lx"}
IsDbl(v) == v[1] \in {"d", "dx"}
IsNum(v) == IsInt(v) \/ IsDbl(v)
NegZero == <<"dx", <<-1, 2097151, 2097151>>>>

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

(* the totalOrder key of m / 2^s, m > 0 *)
KeyPos(m, s) ==
  LET e == Log2(m)
      f == m - 2 ^ e
      ex == (1023 + e - s) * 1024
  IN  IF e <= 10 THEN <<ex + f * 2 ^ (10 - e), 0, 0>>
      ELSE <<ex + f \div 2 ^ (e - 10), (f % 2 ^ (e - 10)) * 2 ^ (31 - e), 0>>
KeyNeg(k) == <<-k[1] - 1, 2097151 - k[2], 2097151 - k[3]>>
KeyRat(n, s) == IF n = 0 THEN <<0, 0, 0>> ELSE IF n > 0 THEN KeyPos(n, s) ELSE KeyNeg(KeyPos(-n, s))

-----------------------------------------------------------------------------
(* IEEE 754 double arithmetic.  A finite double is <<sign, m, e>>: m * 2^e, m a
   sequence of limbs.                                                        *)
TwoTo16 == 65536
RECURSIVE DivSmallAt(_, _, _, _)
DivSmallAt(a, d, i, r) ==   \* from the most significant limb: <<quotient limbs reversed>>, remainder
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET x == r * Base + a[i]
           t == DivSmallAt(a, d, i - 1, x % d)
       IN  <<Append(t[1], x \div d), t[2]>>
DivSmall(a, d) == LET t == DivSmallAt(a, d, Len(a), 0) IN <<Trim(t[1]), t[2]>>   \* d <= 2^17
RECURSIVE MagPow2(_)
MagPow2(k) == IF k <= 13 THEN NatLimbs(2 ^ k) ELSE MagMul1(MagPow2(k - 13), 8192, 1, 0)
RECURSIVE BitLen(_)
BitLen(m) == IF m = <<>> THEN 0
             ELSE IF Len(m) <= 2 THEN 1 + Log2(MagNat(m)) ELSE 16 + BitLen(DivSmall(m, TwoTo16)[1])
RECURSIVE ShiftR(_, _, _)
ShiftR(m, k, st) ==   \* <<m >> k, is anything lost>>
  IF k = 0 \/ m = <<>> THEN <<m, st>>
  ELSE LET n == IF k >= 16 THEN 16 ELSE k
           t == DivSmall(m, 2 ^ n)
       IN  ShiftR(t[1], k - n, st \/ t[2] # 0)
Odd(m) == m # <<>> /\ m[1] % 2 = 1

DInf(s) == <<"dx", IF s = 0 THEN <<2047 * 1024, 0, 0>> ELSE KeyNeg(<<2047 * 1024, 0, 0>>)>>
DNaN == <<"dx", KeyNeg(<<2047 * 1024 + 512, 0, 0>>)>>     \* what an invalid operation yields (x86)
DZero(s) == IF s = 0 THEN <<"d", 0>> ELSE NegZero

(* the value of the double sign, m * 2^e, where m has at most 53 bits and fits *)
DCanon(s, m, e) ==
  IF m = <<>> THEN DZero(s)
  ELSE LET n == BitLen(m)
           q == IF n + e + 2 > 31 \/ e + 2 < -60 THEN <<>>
                ELSE IF e + 2 >= 0 THEN MagMul(m, MagPow2(e + 2))
                ELSE LET t == ShiftR(m, -(e + 2), FALSE) IN IF t[2] THEN <<>> ELSE t[1]
       IN  IF q # <<>> /\ MagCmp(q, <<0, 0, 10>>) < 0   \* 10^9
           THEN <<"d", IF s = 0 THEN MagNat(q) ELSE -MagNat(q)>>
           ELSE LET up == 53 - n                 \* normalise, unless it is subnormal
                    k == IF e - up < -1074 THEN e + 1074 ELSE up
                    mm == IF k = 0 THEN m ELSE MagMul(m, MagPow2(k))
                    ee == e - k
                    norm == BitLen(mm) = 53
                    f == IF norm THEN MagSub(mm, MagPow2(52)) ELSE mm
                    a == DivSmall(f, 2048)       \* f = hi * 2^42 + mid * 2^21 + lo
                    b == DivSmall(a[1], 1024)
                    c == DivSmall(b[1], 2048)
                    d == DivSmall(c[1], 1024)
                    key == <<(IF norm THEN ee + 1075 ELSE 0) * 1024 + MagNat(d[1]), d[2] * 2048 + c[2], b[2] * 2048 + a[2]>>
                IN  <<"dx", IF s = 0 THEN key ELSE KeyNeg(key)>>

(* m * 2^e rounded to the nearest double, ties to even *)
DRound(s, m, e) ==
  LET n == BitLen(m)
      k == IF e + n - 53 < -1074 THEN -1074 - e ELSE n - 53
  IN  IF m = <<>> THEN DZero(s)
      ELSE IF k <= 0 THEN (IF n + e > 1024 THEN DInf(s) ELSE DCanon(s, m, e))
      ELSE LET t == ShiftR(m, k - 1, FALSE)
               h == DivSmall(t[1], 2)
               up == h[2] = 1 /\ (t[2] \/ Odd(h[1]))
               r == IF up THEN MagAdd(h[1], <<1>>) ELSE h[1]
           IN  IF BitLen(r) + e + k > 1024 THEN DInf(s)
               ELSE IF BitLen(r) = 54 THEN DCanon(s, DivSmall(r, 2)[1], e + k + 1)
               ELSE DCanon(s, r, e + k)

(* a number as <<sign, m, e>> after conversion to a double *)
RECURSIVE DParts(_)
DParts(v) ==
  IF v[1] = "d" THEN <<IF v[2] < 0 THEN 1 ELSE 0, NatLimbs(IF v[2] < 0 THEN -v[2] ELSE v[2]), -2>>
  ELSE IF IsInt(v)
  THEN LET b == BigOf(v) IN
       IF BitLen(b[2]) <= 53 THEN <<b[1], b[2], 0>> ELSE DParts(DRound(b[1], b[2], 0))
  ELSE LET neg == v[2][1] < 0
           k == IF neg THEN KeyNeg(v[2]) ELSE v[2]
           f == MagAdd(MagMul(MagAdd(MagMul(NatLimbs(k[1] % 1024), MagPow2(21)), NatLimbs(k[2])), MagPow2(21)), NatLimbs(k[3]))
           ex == k[1] \div 1024
       IN  <<IF neg THEN 1 ELSE 0, IF ex = 0 THEN Trim(f) ELSE MagAdd(Trim(f), MagPow2(52)), IF ex = 0 THEN -1074 ELSE ex - 1075>>

DKey(v) ==   \* the key of a number after conversion to a double
  IF v[1] = "dx" THEN v[2]
  ELSE IF v[1] = "d" THEN KeyRat(v[2], 2)
  ELSE IF SmallInt(v) THEN KeyRat(v[2], 0)
  ELSE LET b == BigOf(v)
           r == DRound(b[1], b[2], 0)
       IN  IF r[1] = "dx" THEN r[2] ELSE KeyRat(r[2], 2)

IsNaN(v) == v[1] = "dx" /\ LET k == IF v[2][1] < 0 THEN KeyNeg(v[2]) ELSE v[2]
                           IN  k[1] > 2047 * 1024 \/ (k[1] = 2047 * 1024 /\ (k[2] > 0 \/ k[3] > 0))

IsInf(v) == v[1] = "dx" /\ v[2] \in {<<2047 * 1024, 0, 0>>, KeyNeg(<<2047 * 1024, 0, 0>>)}
DNeg(v) == IF v[1] = "dx" THEN v[2][1] < 0 ELSE (IF v[1] \in {"ix", "lx"} THEN v[2][1] = 1 ELSE v[2] < 0)

DAdd(a, b) ==
  IF IsNaN(a) THEN a ELSE IF IsNaN(b) THEN b
  ELSE IF IsInf(a) /\ IsInf(b) /\ a # b THEN DNaN
  ELSE IF IsInf(a) THEN a ELSE IF IsInf(b) THEN b
  ELSE LET x == DParts(a)  y == DParts(b)
           hi == IF x[3] >= y[3] THEN x ELSE y
           lo == IF x[3] >= y[3] THEN y ELSE x
           d == hi[3] - lo[3]
       IN  IF hi[2] = <<>> THEN (IF lo[2] = <<>> THEN DZero(IF x[1] = 1 /\ y[1] = 1 THEN 1 ELSE 0) ELSE DRound(lo[1], lo[2], lo[3]))
           ELSE IF lo[2] = <<>> \/ d > 130 THEN DRound(hi[1], hi[2], hi[3])
           ELSE LET m == MagMul(hi[2], MagPow2(d)) IN
                IF hi[1] = lo[1] THEN DRound(hi[1], MagAdd(m, lo[2]), lo[3])
                ELSE LET c == MagCmp(m, lo[2]) IN
                     IF c = 0 THEN DZero(0)
                     ELSE IF c > 0 THEN DRound(hi[1], MagSub(m, lo[2]), lo[3])
                     ELSE DRound(lo[1], MagSub(lo[2], m), lo[3])
DMul(a, b) ==
  LET s == IF DNeg(a) = DNeg(b) THEN 0 ELSE 1 IN
  IF IsNaN(a) THEN a ELSE IF IsNaN(b) THEN b
  ELSE IF IsInf(a) \/ IsInf(b)
  THEN IF (~IsInf(a) /\ DParts(a)[2] = <<>>) \/ (~IsInf(b) /\ DParts(b)[2] = <<>>) THEN DNaN ELSE DInf(s)
  ELSE LET x == DParts(a)  y == DParts(b) IN DRound(s, MagMul(x[2], y[2]), x[3] + y[3])

NumCmp(a, b) ==
  IF SmallInt(a) /\ SmallInt(b) THEN Sgn(a[2], b[2])
  ELSE IF IsInt(a) /\ IsInt(b) THEN BigCmp(BigOf(a), BigOf(b))
  ELSE IF a[1] = "d" /\ b[1] = "d" THEN Sgn(a[2], b[2])
  ELSE IF a[1] = "d" /\ SmallInt(b)
       THEN LET w == a[2] \div 4 IN IF w # b[2] THEN Sgn(w, b[2]) ELSE Sgn(a[2] % 4, 0)
  ELSE IF SmallInt(a) /\ b[1] = "d"
       THEN LET w == b[2] \div 4 IN IF w # a[2] THEN Sgn(a[2], w) ELSE Sgn(0, b[2] % 4)
  ELSE LexCmp(DKey(a), DKey(b), 1)

(* Equality of numbers by value, as in $in: -0.0 equals 0 and NaN equals NaN. *)
NumEq(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) /\ IsNaN(b)
  ELSE LET z(v) == IF v = NegZero THEN <<"d", 0>> ELSE v
           exact(i, d) ==    \* an integer and a double, which need not be able to represent it
             LET p == DParts(d)  g == BigOf(i) IN
             IF IsInf(d) THEN FALSE
             ELSE IF p[2] = <<>> THEN g[2] = <<>>
             ELSE /\ p[1] = g[1] /\ p[3] <= 64 /\ p[3] >= -64
                  /\ IF p[3] >= 0 THEN MagMul(p[2], MagPow2(p[3])) = g[2] ELSE MagMul(g[2], MagPow2(-p[3])) = p[2]
       IN  IF a[1] = "dx" /\ IsInt(b) THEN exact(b, a)
           ELSE IF IsInt(a) /\ b[1] = "dx" THEN exact(a, b)
           ELSE NumCmp(z(a), z(b)) = 0

-----------------------------------------------------------------------------
(* The order of values used by filters, $max/$min and sort: -1, 0, 1; 2 = not comparable. *)
ValueCmp(a, b) ==
  LET ta == a[1]  tb == b[1] IN
  IF IsNum(a) /\ IsNum(b) THEN NumCmp(a, b)
  ELSE IF TypeByte(a) # TypeByte(b) THEN Sgn(TypeByte(a), TypeByte(b))
  ELSE IF ta \in {"n", "und"} THEN 0
  ELSE IF ta = "b" THEN Sgn(a[2], b[2])
  ELSE IF ta \in {"s", "oid"} THEN LexCmp(a[2], b[2], 1)
  ELSE IF ta = "bin" THEN LexCmp(a[2][2], b[2][2], 1)
  ELSE IF ta \in {"dt", "dtx"}
       THEN LET big(v) == IF v[1] = "dtx" THEN v[2]
                          ELSE IF v[2] < 0 THEN <<1, NatLimbs(-v[2])>> ELSE <<0, NatLimbs(v[2])>>
            IN  BigCmp(big(a), big(b))
  ELSE 2

(* Equality as in $in, $nin and $all. *)
RECURSIVE QEq(_, _)
QEq(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumEq(a, b)
  ELSE IF Arr(a) /\ Arr(b) THEN Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : QEq(a[2][i], b[2][i])
  ELSE IF Doc(a) /\ Doc(b)
       THEN Len(a[2]) = Len(b[2])
            /\ \A i \in 1..Len(a[2]) : a[2][i][1] = b[2][i][1] /\ QEq(a[2][i][2], b[2][i][2])
  ELSE IF a[1] \in {"s", "sym"} /\ b[1] \in {"s", "sym"} THEN a[2] = b[2]
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE IF a[1] = "jw" THEN a[2][1] = b[2][1] /\ QEq(a[2][2], b[2][2])
  ELSE a = b

-----------------------------------------------------------------------------
(* Documents *)
FieldIdx(d, k) ==   \* position of the field with the (literal) key k, 0 if there is none
  LET s == {i \in 1..Len(d[2]) : d[2][i][1] = k} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
HasField(d, k) == FieldIdx(d, k) # 0
Field(d, k) == d[2][FieldIdx(d, k)][2]
FieldOr(d, k, dflt) == LET i == FieldIdx(d, k) IN IF i = 0 THEN dflt ELSE d[2][i][2]
SetField(d, k, v) ==
  LET i == FieldIdx(d, k) IN
  IF i = 0 THEN <<"o", Append(d[2], <<k, v>>)>> ELSE <<"o", [d[2] EXCEPT ![i] = <<k, v>>]>>
DelField(d, k) ==
  LET i == FieldIdx(d, k) IN
  IF i = 0 THEN d ELSE <<"o", SubSeq(d[2], 1, i - 1) \o SubSeq(d[2], i + 1, Len(d[2]))>>

(* The value at a path, <<>> if it is missing or a document. *)
RECURSIVE GetPath(_, _)
GetPath(d, p) ==
  IF p = <<>> THEN <<>>
  ELSE LET i == FieldIdx(d, <<Head(p)>>) IN
       IF i = 0 THEN <<>>
       ELSE LET v == d[2][i][2] IN
            IF Doc(v) THEN GetPath(v, Tail(p))
            ELSE IF Tail(p) = <<>> THEN <<v>> ELSE <<>>

(* The value at a path, a document included; null if it is missing. *)
RECURSIVE PathOrNull(_, _)
PathOrNull(d, p) ==
  LET i == FieldIdx(d, <<Head(p)>>) IN
  IF i = 0 THEN NullV
  ELSE LET v == d[2][i][2] IN
       IF Tail(p) = <<>> THEN v
       ELSE IF Doc(v) THEN PathOrNull(v, Tail(p)) ELSE NullV

(* Strings of bytes as keys (ASCII only). *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE BytesToKey(_, _, _)
BytesToKey(b, i, cur) ==
  IF i > Len(b) THEN <<cur>>
  ELSE IF b[i] = 46 THEN <<cur>> \o BytesToKey(b, i + 1, "")
  ELSE BytesToKey(b, i + 1, cur \o SubSeq(Ascii, b[i] - 31, b[i] - 31))
KeyOf(b) == BytesToKey(b, 1, "")
Dollar(k) == Len(k[1]) > 0 /\ SubSeq(k[1], 1, 1) = "$"

(* Values which can be a primary key, or be held by an index. *)
Nul(v) == v[1] \in {"s", "sym"} /\ \E i \in 1..Len(v[2]) : v[2][i] = 0
KeyTypes == {"d", "dx", "s", "b", "n", "i", "ix", "l", "lx", "ts", "oid", "dt", "dtx", "sym", "dec", "und"}
KeyValue(v) == v[1] \in KeyTypes
IndexValue(v) == KeyValue(v) /\ ~Nul(v)

IsPerm(a, b) ==   \* equal as bags
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
=============================================================================
