------------------------------- MODULE Update -------------------------------
(* Update documents.  ValidUpdate(u): it is accepted at all.  Apply(u, doc) is
   <<"ok", new document, changed>> or <<"err">>; the operators are applied one
   after another, each to the result of the previous one, and a failing one
   fails the whole update.  The keys are taken literally.                     *)
EXTENDS Query

NotId(f) == ~HasField(f, IdK)

ValidOperator(op, f) ==
  /\ Doc(f)
  /\ CASE op \in {"$set", "$unset", "$push", "$max", "$min"} -> NotId(f)
       [] op \in {"$inc", "$mul"} -> NotId(f) /\ \A i \in 1..Len(f[2]) : IsNum(f[2][i][2])
       [] op = "$rename" -> /\ NotId(f)
                            /\ \A i \in 1..Len(f[2]) :
                                 f[2][i][2][1] = "s" /\ KeyOf(f[2][i][2][2]) # IdK
       [] op = "$pop" -> \A i \in 1..Len(f[2]) :
                           SmallInt(f[2][i][2]) /\ f[2][i][2][2] \in {1, -1}
       [] OTHER -> FALSE

ValidUpdate(u) ==
  \A i \in 1..Len(u[2]) : Len(u[2][i][1]) = 1 /\ ValidOperator(u[2][i][1][1], u[2][i][2])

(* Int32 arithmetic widens to Int64, Int64 arithmetic which overflows is an error. *)
IntRes(a, b, r) ==
  IF IsInt32(a) /\ IsInt32(b)
  THEN <<IF Fits32(r) THEN Int32V(r) ELSE Int64V(r)>>
  ELSE IF Fits64(r) THEN <<Int64V(r)>> ELSE <<>>

(* doubles: the common small ones directly, the others as IEEE 754 says *)
Small(v) == v[1] \in {"d", "i", "l"} /\ v[2] > -100000000 /\ v[2] < 100000000
Quarters(v) == IF v[1] = "d" THEN v[2] ELSE 4 * v[2]
Add(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN <<>>
  ELSE IF IsInt(a) /\ IsInt(b) THEN IntRes(a, b, BigAdd(BigOf(a), BigOf(b)))
  ELSE IF Small(a) /\ Small(b) THEN <<<<"d", Quarters(a) + Quarters(b)>>>>
  ELSE <<DAdd(a, b)>>
Mul(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN <<>>
  ELSE IF IsInt(a) /\ IsInt(b) THEN IntRes(a, b, BigMul(BigOf(a), BigOf(b)))
  ELSE <<DMul(a, b)>>

(* One field of one operator: <<new document, changed>> or <<>> for a failure. *)
Field1(op, d, k, v) ==
  LET has == HasField(d, k)
      old == FieldOr(d, k, NullV)
  IN
  CASE op = "$set" -> <<SetField(d, k, v), TRUE>>
    [] op = "$unset" -> <<DelField(d, k), TRUE>>
    [] op = "$inc" ->
         IF ~has THEN <<SetField(d, k, v), TRUE>>
         ELSE LET r == Add(old, v) IN IF r = <<>> THEN <<>> ELSE <<SetField(d, k, r[1]), TRUE>>
    [] op = "$mul" ->
         IF ~has THEN <<SetField(d, k, v), TRUE>>
         ELSE LET r == Mul(old, v) IN IF r = <<>> THEN <<>> ELSE <<SetField(d, k, r[1]), TRUE>>
    [] op \in {"$max", "$min"} ->
         LET c == ValueCmp(v, old) IN
         IF c = 2 THEN <<>>
         ELSE IF c = (IF op = "$max" THEN 1 ELSE -1) THEN <<SetField(d, k, v), TRUE>> ELSE <<d, FALSE>>
    [] op = "$rename" ->
         LET d1 == DelField(d, k)
         IN  <<SetField(d1, KeyOf(v[2]), old), TRUE>>
    [] op = "$push" ->
         IF Arr(old) THEN <<SetField(d, k, <<"a", Append(old[2], v)>>), TRUE>>
         ELSE IF old = NullV THEN <<SetField(d, k, <<"a", <<v>>>>), TRUE>> ELSE <<>>
    [] op = "$pop" ->
         IF Arr(old)
         THEN IF old[2] = <<>> THEN <<d, FALSE>>
              ELSE <<SetField(d, k, <<"a", IF v[2] = 1 THEN Tail(old[2])
                                           ELSE SubSeq(old[2], 1, Len(old[2]) - 1)>>), TRUE>>
         ELSE IF old = NullV THEN <<SetField(d, k, <<"a", <<>>>>), TRUE>> ELSE <<>>

RECURSIVE ApplyOp(_, _, _, _, _)
ApplyOp(op, f, i, d, ch) ==
  IF i > Len(f[2]) THEN <<d, ch>>
  ELSE LET r == Field1(op, d, f[2][i][1], f[2][i][2])
       IN  IF r = <<>> THEN <<>> ELSE ApplyOp(op, f, i + 1, r[1], ch \/ r[2])

RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(u, i, d, ch) ==
  IF i > Len(u[2]) THEN <<"ok", d, ch>>
  ELSE LET r == ApplyOp(u[2][i][1][1], u[2][i][2], 1, d, ch)
       IN  IF r = <<>> THEN <<"err">> ELSE ApplyFrom(u, i + 1, r[1], r[2])

Apply(u, doc) ==
  LET r == ApplyFrom(u, 1, doc, FALSE)
  IN  IF r[1] = "ok" /\ FieldOr(r[2], IdK, <<>>) # Field(doc, IdK) THEN <<"err">> ELSE r

(* The document an upsert inserts: <<>> if there is an error. *)
RECURSIVE MergeSet(_, _, _)
MergeSet(d, s, i) ==
  IF i > Len(s[2]) THEN <<d>>
  ELSE LET k == s[2][i][1]  v == s[2][i][2] IN
       IF Len(k) > 1 \/ Dollar(k) \/ Doc(v) THEN <<>> ELSE MergeSet(SetField(d, k, v), s, i + 1)
HasSet(u) == HasField(u, <<"$set">>)
UpsertDoc(q, u) == IF Doc(Field(u, <<"$set">>)) THEN MergeSet(q, Field(u, <<"$set">>), 1) ELSE <<>>
=============================================================================
