------------------------------- MODULE PyTrace -------------------------------
(* The Python binding.  The events marked py are calls of the binding with what
   was passed to it and what it returned; the others are calls of the library on
   the same database, before and afterwards.  A call of the binding is that of
   the library, seen through PyVal: what Python shows of a value.  A value that
   has no counterpart is marked py: passing it is refused.                    *)
EXTENDS PoloTrace

RECURSIVE Alien(_)
Alien(v) ==
  CASE v[1] = "py" -> TRUE
    [] v[1] = "o" -> \E i \in 1..Len(v[2]) : Alien(v[2][i][2])
    [] v[1] = "a" -> \E i \in 1..Len(v[2]) : Alien(v[2][i])
    [] OTHER -> FALSE
NoDoc(v) == Alien(v) \/ ~Doc(v)
AlienCall(e) ==
  \/ \E f \in {"doc", "q", "u"} \cap DOMAIN e : NoDoc(e[f])
  \/ \E f \in {"docs", "pipe"} \cap DOMAIN e : \E i \in 1..Len(e[f]) : NoDoc(e[f][i])

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_, _)
Hex(b, i) == IF i > Len(b) THEN <<>> ELSE <<HexDigit(b[i] \div 16), HexDigit(b[i] % 16)>> \o Hex(b, i + 1)
UnDigit(c) == IF c >= 97 THEN c - 87 ELSE c - 48
UnHex(s) == [i \in 1..12 |-> 16 * UnDigit(s[2 * i - 1]) + UnDigit(s[2 * i])]
IsHexId(v) == v[1] = "s" /\ Len(v[2]) = 24 /\ \A i \in 1..24 : v[2][i] \in 48..57 \cup 97..102

(* datetime covers the years 1 to 9999 *)
MinDate == <<1, <<0, 9680, 1355, 62>>>>
MaxDate == <<0, <<9999, 79, 4023, 253>>>>
DateBig(v) == IF v[1] = "dtx" THEN v[2] ELSE BigOf(<<"l", v[2]>>)
PyDate(v) == BigCmp(MinDate, DateBig(v)) <= 0 /\ BigCmp(DateBig(v), MaxDate) <= 0

Flags == <<105, 109, 115, 120>>     \* i m s x
RECURSIVE Chosen(_, _)
Chosen(opts, i) == IF i > 4 THEN <<>>
                   ELSE (IF \E k \in 1..Len(opts) : opts[k] = Flags[i] THEN <<Flags[i]>> ELSE <<>>) \o Chosen(opts, i + 1)

RECURSIVE PyVal(_)
PyVal(v) ==
  CASE v[1] = "i" -> <<"l", v[2]>>
    [] v[1] = "ix" -> <<"lx", v[2]>>
    [] v[1] \in {"l", "lx", "d", "dx", "s", "b", "n", "ts"} -> v
    [] v[1] \in {"sym", "js"} -> <<"s", v[2]>>
    [] v[1] = "oid" -> <<"s", Hex(v[2], 1)>>
    [] v[1] = "bin" -> <<"by", v[2][2]>>
    [] v[1] \in {"dt", "dtx"} -> IF PyDate(v) THEN v ELSE <<"bad">>
    [] v[1] = "re" -> <<"re", <<v[2][1], Chosen(v[2][2], 1)>>>>
    [] v[1] = "o" -> <<"o", [i \in 1..Len(v[2]) |-> <<v[2][i][1], PyVal(v[2][i][2])>>]>>
    [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> PyVal(v[2][i])]>>
    [] OTHER -> NullV
RECURSIVE Bad(_)     \* Python can not show it
Bad(v) ==
  CASE v[1] \in {"dt", "dtx"} -> ~PyDate(v)
    [] v[1] = "o" -> \E i \in 1..Len(v[2]) : Bad(v[2][i][2])
    [] v[1] = "a" -> \E i \in 1..Len(v[2]) : Bad(v[2][i])
    [] OTHER -> FALSE
BadBlocks(bs) == bs # <<<<"any">>>> /\ \E i \in 1..Len(bs) : \E k \in 1..Len(bs[i][1]) : Bad(bs[i][1][k])

(* a bag of documents, seen from Python *)
Seen(D) == MapB(BlockOf(D), PyVal)

PyAccept(out, r) ==
  IF r.k = "err"
  THEN \/ out.k = "err"
       \/ /\ out.k = "ok" /\ out.w = {}
          /\ LET x == out.res IN
             CASE x[1] = "rows" -> \E bs \in x[2] : BadBlocks(bs)
               [] x[1] = "oneof" -> \E d \in x[2] : Bad(d)
               [] x[1] = "dump" -> \E c \in DOMAIN x[2] : \E d \in x[2][c].docs : Bad(d)
               [] OTHER -> FALSE
  ELSE /\ r.k = "ok"
       /\ out.k = "ok"
       /\ LET x == out.res IN
          CASE x[1] = "none" -> TRUE
            [] x[1] = "ids" -> r.ids = [i \in 1..Len(x[2]) |-> PyVal(x[2][i])]
            [] x[1] = "rows" -> Fits(r.docs, {IF bs = <<<<"any">>>> THEN bs ELSE MapB(bs, PyVal) : bs \in x[2]})
            [] x[1] = "oneof" -> IF r.docs = <<>> THEN x[2] = {} ELSE Len(r.docs) = 1 /\ \E d \in x[2] : r.docs[1] = PyVal(d)
            [] x[1] = "n" -> r.n = x[2]
            [] x[1] = "mn" -> r.m = x[2] /\ r.n = x[3]
            [] x[1] = "names" -> Rng(r.names) = x[2] /\ Len(r.names) = Cardinality(x[2])
            [] x[1] = "dump" ->
                 /\ Len(r.colls) = Cardinality(DOMAIN x[2])
                 /\ {r.colls[i][1] : i \in 1..Len(r.colls)} = DOMAIN x[2]
                 /\ \A i \in 1..Len(r.colls) : Fits(r.colls[i][2], {Seen(x[2][r.colls[i][1]].docs)})

NewDocs(e) == IF e.op = "insert_one" THEN <<e.doc>> ELSE IF e.op = "insert_many" THEN e.docs ELSE <<>>
PyCand(e) ==
  IF ~Has_(e.r, "ids") THEN <<>>
  ELSE [i \in 1..Len(e.r.ids) |-> IF IsHexId(e.r.ids[i]) THEN {<<"oid", UnHex(e.r.ids[i][2])>>} ELSE {}]

PyOuts(e, cand) ==
  IF AlienCall(e) THEN {Err(db, {"other"})}
  ELSE IF e.op = "py_coll"      \* asking for a collection creates it
  THEN IF HasColl(db, e.c) THEN {Ok(db, {}, <<"none">>)} ELSE CreateCollOuts(db, e)
  ELSE Outs(db, e, cand)

PyCall(e, r) ==
  CASE e.op = "reopen" -> r.k = "ok" /\ Reopen
    [] e.op \in {"busy", "stale"} -> r.k = "err" /\ Nothing   \* opened twice; used after it was closed
    [] OTHER -> \E out \in PyOuts(e, PyCand(e)) : PyAccept(out, r) /\ db' = out.db /\ UNCHANGED <<txns, curs>>

PNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ IF Has_(Ev, "py") THEN PyCall(Ev, Ev.r) ELSE Call(Ev, Ev.r, Cand(Ev))
  /\ l' = l + 1
  /\ UNCHANGED tid
PSpec == TInit /\ [][PNext]_tvars
=============================================================================
