--------------------------------- MODULE Agg ---------------------------------
(* Aggregation pipelines and find options.

   The order in which a collection is read is not specified, so a result is a
   sequence of blocks: <<rows, n>> stands for any n of the rows, in any order.
   Results(...) is a set of such sequences, because a stage that needs all rows
   may follow one that leaves some of them open.  The pseudo result <<"any">>
   stands for a sort by values which can not be compared: nothing is specified
   except that it is an error or some result.                                 *)
EXTENDS Update

StageName(st) == st[2][1][1]
StageArg(st) == st[2][1][2]

RECURSIVE ValidExpr(_)
ValidExpr(d) ==   \* an operator document
  /\ Len(d[2]) = 1
  /\ LET k == d[2][1][1]  v == d[2][1][2] IN
     CASE k = <<"$sum">> -> Doc(v) => ValidExpr(v)
       [] k = <<"$abs">> -> \/ Doc(v) /\ ValidExpr(v)
                            \/ v = NullV \/ IsInt(v)
                            \/ v[1] = "s" /\ Len(v[2]) > 0 /\ v[2][1] = 36
       [] OTHER -> FALSE

ValidStage(st, first) ==
  /\ Len(st[2]) = 1
  /\ LET k == StageName(st)  v == StageArg(st) IN
     CASE k = <<"$match">> -> first /\ Doc(v) /\ ValidFilter(v)
       [] k = <<"$sort">> -> Doc(v) /\ \A i \in 1..Len(v[2]) : SmallInt(v[2][i][2]) /\ v[2][i][2][2] \in {1, -1}
       [] k \in {<<"$skip">>, <<"$limit">>} -> IsInt(v) /\ BigOf(v)[1] = 0
       [] k = <<"$count">> -> v[1] = "s"
       [] k = <<"$unset">> -> v[1] = "s" \/ (Arr(v) /\ \A i \in 1..Len(v[2]) : v[2][i][1] = "s")
       [] k = <<"$addFields">> -> Doc(v) /\ \A i \in 1..Len(v[2]) : Doc(v[2][i][2]) => ValidExpr(v[2][i][2])
       [] k = <<"$group">> -> /\ Doc(v) /\ HasField(v, IdK)
                              /\ \A i \in 1..Len(v[2]) :
                                   v[2][i][1] # IdK => Doc(v[2][i][2]) /\ ValidExpr(v[2][i][2])
       [] OTHER -> FALSE
ValidPipe(p) == \A i \in 1..Len(p) : ValidStage(p[i], i = 1)

-----------------------------------------------------------------------------
(* expressions on one document *)
AbsV(v) ==
  IF SmallInt(v) THEN <<v[1], IF v[2] < 0 THEN -v[2] ELSE v[2]>>
  ELSE IF IsInt(v)
  THEN LET b == <<0, v[2][2]>> IN
       IF IsInt32(v) THEN (IF Fits32(b) THEN Int32V(b) ELSE Int64V(b))
       ELSE IF Fits64(b) THEN Int64V(b) ELSE <<"dx", KeyPos(1, -63)>>
  ELSE IF v[1] = "d" THEN <<"d", IF v[2] < 0 THEN -v[2] ELSE v[2]>>
  ELSE IF v = NegZero THEN <<"d", 0>>
  ELSE IF v[1] = "dx" /\ v[2][1] < 0 THEN <<"dx", KeyNeg(v[2])>>
  ELSE v

FieldRef(v) == KeyOf(Tail(v[2]))
IsRef(v) == v[1] = "s" /\ Len(v[2]) > 0 /\ v[2][1] = 36

RECURSIVE Eval(_, _)
Eval(e, d) ==   \* an operator document other than $sum
  LET v == e[2][1][2] IN
  IF Doc(v) THEN AbsV(Eval(v, d)) ELSE IF IsRef(v) THEN AbsV(FieldOr(d, FieldRef(v), NullV)) ELSE AbsV(v)

SumArg(v, d) == IF Doc(v) THEN Eval(v, d) ELSE IF IsRef(v) THEN FieldOr(d, FieldRef(v), NullV) ELSE v

(* sums start at the Int64 0; what is not a number does not count *)
SumAdd(s, v) ==
  IF ~IsNum(v) THEN s
  ELSE IF IsInt(v) /\ IsInt(s)
  THEN LET r == BigAdd(BigOf(s), BigOf(v)) IN IF Fits64(r) THEN Int64V(r) ELSE DAdd(s, v)
  ELSE Add(s, v)[1]
RECURSIVE SumAll(_, _, _, _)
SumAll(v, rows, i, s) == IF i > Len(rows) THEN s ELSE SumAll(v, rows, i + 1, SumAdd(s, SumArg(v, rows[i])))

RECURSIVE AddFields(_, _, _, _)
AddFields(f, i, d, in) ==
  IF i > Len(f[2]) THEN d
  ELSE LET v == f[2][i][2]
           x == IF Doc(v) THEN Eval(v, in) ELSE IF IsRef(v) THEN FieldOr(d, FieldRef(v), NullV) ELSE v
       IN  AddFields(f, i + 1, SetField(d, f[2][i][1], x), in)

RECURSIVE UnsetAll(_, _, _)
UnsetAll(ks, i, d) == IF i > Len(ks) THEN d ELSE UnsetAll(ks, i + 1, DelField(d, ks[i]))

(* is the sum the same in every order? *)
SumExact(v, rows) ==
  LET xs == {i \in 1..Len(rows) : IsNum(SumArg(v, rows[i]))} IN
  \/ \A i \in xs : Small(SumArg(v, rows[i]))
  \/ /\ \A i \in xs : IsInt(SumArg(v, rows[i]))
     /\ IsInt(SumAll(v, rows, 1, <<"l", 0>>))
     /\ LET mag[i \in 0..Len(rows)] == IF i = 0 THEN <<0, <<>>>>
               ELSE IF i \in xs THEN BigAdd(mag[i - 1], <<0, BigOf(SumArg(v, rows[i]))[2]>>) ELSE mag[i - 1]
        IN  Fits64(mag[Len(rows)])
GroupExact(f, rows) ==
  \A i \in 1..Len(f[2]) :
    LET v == f[2][i][2] IN
    \/ f[2][i][1] = IdK
    \/ v[2][1][1] = <<"$sum">> /\ SumExact(v[2][1][2], rows)
    \/ v[2][1][1] # <<"$sum">> /\ (Doc(v[2][1][2]) => SumExact(v[2][1][2][2][1][2], rows))

GroupDoc(f, rows) ==
  <<"o", [i \in 1..Len(f[2]) |->
           LET k == f[2][i][1]  v == f[2][i][2] IN
           IF k = IdK THEN <<k, v>>
           ELSE IF v[2][1][1] = <<"$sum">> THEN <<k, SumAll(v[2][1][2], rows, 1, <<"l", 0>>)>>
           ELSE \* $abs of a nested $sum, or of a constant
                LET w == v[2][1][2] IN
                <<k, IF Doc(w) THEN AbsV(SumAll(w[2][1][2], rows, 1, <<"l", 0>>)) ELSE AbsV(w)>>]>>

-----------------------------------------------------------------------------
(* sorting *)
RankOf(v) == IF IsNum(v) THEN 1 ELSE TypeByte(v)
SortCmp1(a, b) == IF RankOf(a) # RankOf(b) THEN Sgn(RankOf(a), RankOf(b)) ELSE ValueCmp(a, b)

Plain(v) == v[1] \in {"i", "l", "ix", "lx", "d", "dx", "s", "b", "n"}   \* always comparable with its like

RECURSIVE DocCmp(_, _, _, _)
DocCmp(o, i, a, b) ==   \* -1: a first, 0, 1: b first, 2: can not be compared
  IF i > Len(o[2]) THEN 0
  ELSE LET k == o[2][i][1]  dir == o[2][i][2][2]
           c == IF HasField(a, k) /\ HasField(b, k) THEN SortCmp1(Field(a, k), Field(b, k))
                ELSE IF HasField(a, k) THEN -1 ELSE IF HasField(b, k) THEN 1 ELSE 0
       IN  IF c = 2 THEN 2 ELSE IF c # 0 THEN c * dir ELSE DocCmp(o, i + 1, a, b)

(* rows: sequence of <<document, number of its block>> *)
RowCmp(o, x, y) == LET c == DocCmp(o, 1, x[1], y[1]) IN IF c # 0 THEN c ELSE Sgn(x[2], y[2])

RECURSIVE MergeRows(_, _, _, _, _, _), SortRows(_, _)
MergeRows(o, x, y, i, j, acc) ==
  IF i > Len(x) THEN acc \o SubSeq(y, j, Len(y))
  ELSE IF j > Len(y) THEN acc \o SubSeq(x, i, Len(x))
  ELSE IF RowCmp(o, x[i], y[j]) <= 0 THEN MergeRows(o, x, y, i + 1, j, Append(acc, x[i]))
  ELSE MergeRows(o, x, y, i, j + 1, Append(acc, y[j]))
SortRows(o, rows) ==
  IF Len(rows) <= 1 THEN rows
  ELSE LET h == Len(rows) \div 2
       IN  MergeRows(o, SortRows(o, SubSeq(rows, 1, h)), SortRows(o, SubSeq(rows, h + 1, Len(rows))), 1, 1, <<>>)

RECURSIVE Group2(_, _, _, _)
Group2(o, s, i, acc) ==   \* equal neighbours to blocks
  IF i > Len(s) THEN acc
  ELSE IF i > 1 /\ RowCmp(o, s[i - 1], s[i]) = 0
  THEN LET b == acc[Len(acc)]
       IN  Group2(o, s, i + 1, [acc EXCEPT ![Len(acc)] = <<Append(b[1], s[i][1]), b[2] + 1>>])
  ELSE Group2(o, s, i + 1, Append(acc, <<<<s[i][1]>>, 1>>))

RECURSIVE Flat(_, _)
Flat(bs, i) == IF i > Len(bs) THEN <<>> ELSE [j \in 1..Len(bs[i][1]) |-> <<bs[i][1][j], i>>] \o Flat(bs, i + 1)

(* integers beyond 2^53 and doubles are compared as doubles: not an order *)
Rounded(v) == v[1] = "lx" /\ MagCmp(v[2][2], MagPow2(53)) > 0
Disorder(o, rows) ==
  \E k \in 1..Len(o[2]) :
    LET vs == {Field(rows[i][1], o[2][k][1]) : i \in {j \in 1..Len(rows) : HasField(rows[j][1], o[2][k][1])}}
    IN  (\E v \in vs : Rounded(v)) /\ (\E v \in vs : v[1] = "dx")

SortBlocks(o, bs) ==
  LET rows == Flat(bs, 1) IN
  IF Disorder(o, rows) THEN <<<<"any">>>>
  ELSE LET odd == \E i \in 1..Len(rows), k \in 1..Len(o[2]) :
                    HasField(rows[i][1], o[2][k][1]) /\ ~Plain(Field(rows[i][1], o[2][k][1]))
       IN  IF odd /\ \E i, j \in 1..Len(rows) : i < j /\ DocCmp(o, 1, rows[i][1], rows[j][1]) = 2
           THEN <<<<"any">>>>
           ELSE Group2(o, SortRows(o, rows), 1, <<>>)

-----------------------------------------------------------------------------
(* the choices that partial blocks leave open *)
Exact(b) == Len(b[1]) = b[2]
RECURSIVE Pick(_, _, _)
Pick(rows, i, S) == IF i > Len(rows) THEN <<>>
                    ELSE (IF i \in S THEN <<rows[i]>> ELSE <<>>) \o Pick(rows, i + 1, S)
RECURSIVE Subsets(_, _)
Subsets(n, k) ==   \* of 1..n, with k elements
  IF k = 0 THEN {{}} ELSE IF n < k THEN {} ELSE Subsets(n - 1, k) \cup {x \cup {n} : x \in Subsets(n - 1, k - 1)}
Picks(b) == IF Exact(b) THEN {b}
            ELSE {<<Pick(b[1], 1, S), b[2]>> : S \in Subsets(Len(b[1]), b[2])}
RECURSIVE Choices(_, _)
Choices(bs, i) == IF i > Len(bs) THEN {<<>>}
                  ELSE {<<b>> \o r : b \in Picks(bs[i]), r \in Choices(bs, i + 1)}

(* more than a few thousand choices are not looked at *)
RECURSIVE Binomial(_, _), Ways(_, _)
Binomial(n, k) == IF k = 0 THEN 1 ELSE LET b == Binomial(n, k - 1) IN IF b > 100000 THEN b ELSE (b * (n - k + 1)) \div k
Ways(bs, i) == IF i > Len(bs) THEN 1
               ELSE LET n == Len(bs[i][1])  k == bs[i][2]
                        w == Binomial(n, IF 2 * k > n THEN n - k ELSE k)  r == Ways(bs, i + 1)
                    IN  IF w > 2000 \/ r > 2000 THEN 1000000 ELSE w * r
TooMany(bs) == Ways(bs, 1) > 2000

RECURSIVE SkipB(_, _), LimitB(_, _)
SkipB(bs, n) == IF bs = <<>> \/ n = 0 THEN bs
                ELSE IF bs[1][2] <= n THEN SkipB(Tail(bs), n - bs[1][2])
                ELSE <<<<bs[1][1], bs[1][2] - n>>>> \o Tail(bs)
LimitB(bs, n) == IF bs = <<>> \/ n = 0 THEN <<>>
                 ELSE IF bs[1][2] <= n THEN <<bs[1]>> \o LimitB(Tail(bs), n - bs[1][2])
                 ELSE <<<<bs[1][1], n>>>>
RECURSIVE SumTake(_, _)
SumTake(bs, i) == IF i > Len(bs) THEN 0 ELSE bs[i][2] + SumTake(bs, i + 1)

MapB(bs, F(_)) == [i \in 1..Len(bs) |-> <<[j \in 1..Len(bs[i][1]) |-> F(bs[i][1][j])], bs[i][2]>>]
RowsOf(bs) == LET fl == Flat(bs, 1) IN [i \in 1..Len(fl) |-> fl[i][1]]
SmallN(v) == IF SmallInt(v) THEN v[2] ELSE 1000000

StageResults(st, bs) ==
  LET k == StageName(st)  v == StageArg(st) IN
  IF bs = <<<<"any">>>> THEN {bs}
  ELSE IF k \in {<<"$sort">>, <<"$group">>} /\ TooMany(bs) THEN {<<<<"any">>>>}
  ELSE CASE k = <<"$skip">> -> {SkipB(bs, SmallN(v))}
         [] k = <<"$limit">> -> {LimitB(bs, SmallN(v))}
         [] k = <<"$sort">> -> {SortBlocks(v, c) : c \in Choices(bs, 1)}
         [] k = <<"$count">> -> {<<<<<<<<"o", <<<<KeyOf(v[2]), <<"l", SumTake(bs, 1)>>>>>>>>>>, 1>>>>}
         [] k = <<"$unset">> ->
              LET ks == IF v[1] = "s" THEN <<KeyOf(v[2])>> ELSE [i \in 1..Len(v[2]) |-> KeyOf(v[2][i][2])]
              IN  {MapB(bs, LAMBDA d : UnsetAll(ks, 1, d))}
         [] k = <<"$addFields">> -> {MapB(bs, LAMBDA d : AddFields(v, 1, d, d))}
         [] k = <<"$group">> -> {IF (\A i \in 1..Len(c) : c[i][2] = 1) \/ GroupExact(v, RowsOf(c))
                                   THEN <<<<<<GroupDoc(v, RowsOf(c))>>, 1>>>> ELSE <<<<"any">>>> : c \in Choices(bs, 1)}

RECURSIVE PipeFrom(_, _, _)
PipeFrom(p, i, S) ==
  IF i > Len(p) THEN S ELSE PipeFrom(p, i + 1, UNION {StageResults(p[i], bs) : bs \in S})

RECURSIVE SetToRows(_)
SetToRows(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToRows(S \ {x})
BlockOf(S) == IF S = {} THEN <<>> ELSE <<<<SetToRows(S), Cardinality(S)>>>>

(* rows is what a result of the blocks can look like *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SubBag(a, b) == \A i \in 1..Len(a) : Count(a, a[i]) <= Count(b, a[i])
RECURSIVE RowsFit(_, _, _)
RowsFit(rows, bs, i) ==   \* rows from i on are the result of bs
  IF bs = <<>> THEN i = Len(rows) + 1
  ELSE /\ i + bs[1][2] - 1 <= Len(rows)
       /\ SubBag(SubSeq(rows, i, i + bs[1][2] - 1), bs[1][1])
       /\ RowsFit(rows, Tail(bs), i + bs[1][2])
Fits(rows, S) == \E bs \in S : (IF bs = <<<<"any">>>> THEN TRUE ELSE RowsFit(rows, bs, 1))
AnyRes(S) == \E bs \in S : bs = <<<<"any">>>>

(* prefix version, for cursors that were not read to the end *)
RECURSIVE PrefixFit(_, _, _)
PrefixFit(rows, bs, i) ==
  IF i > Len(rows) THEN TRUE
  ELSE IF bs = <<>> THEN FALSE
  ELSE LET n == IF i + bs[1][2] - 1 <= Len(rows) THEN bs[1][2] ELSE Len(rows) - i + 1
       IN  /\ SubBag(SubSeq(rows, i, i + n - 1), bs[1][1])
           /\ PrefixFit(rows, Tail(bs), i + n)
FitsPrefix(rows, S) == \E bs \in S : (IF bs = <<<<"any">>>> THEN TRUE ELSE PrefixFit(rows, bs, 1))
=============================================================================
