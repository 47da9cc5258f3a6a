-------------------------------- MODULE Query --------------------------------
(* Filters.  ValidFilter(q) tells whether q is accepted at all; Match(q, doc)
   is the set of the possible outcomes of evaluating it on a document: "t"
   (matches), "f" (does not), "e" (the evaluation fails).  It is a set because
   the order in which predicates are evaluated is not part of the specification:
   of a false and a failing predicate either may be met first.               *)
EXTENDS Regex

InLiteral(d) == HasField(d, <<"$ref">>) /\ HasField(d, <<"$id">>)
AllLiteral(d) == d[2][1][1] \in {<<"$ref">>, <<"$id">>, <<"$db">>}
DollarDoc(v) == Doc(v) /\ Len(v[2]) > 0 /\ Dollar(v[2][1][1])

ValidMembers(v, Literal(_)) ==
  /\ Arr(v)
  /\ \A i \in 1..Len(v[2]) :
       /\ DollarDoc(v[2][i]) => Literal(v[2][i])
       /\ v[2][i][1] = "re" => RegexValid(v[2][i])

Operators == {"$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$nin", "$all", "$size", "$regex", "$not"}

RECURSIVE ValidOps(_)
ValidOps(ops) ==
  \A i \in 1..Len(ops[2]) :
    LET k == ops[2][i][1]  v == ops[2][i][2] IN
    /\ Len(k) = 1
    /\ CASE k[1] \in {"$eq", "$ne", "$gt", "$gte", "$lt", "$lte"} -> TRUE
         [] k[1] \in {"$in", "$nin"} -> ValidMembers(v, InLiteral)
         [] k[1] = "$all" -> ValidMembers(v, AllLiteral)
         [] k[1] = "$size" -> IsInt64(v)
         [] k[1] = "$regex" -> v[1] = "re"
         [] k[1] = "$not" -> Doc(v) /\ ValidOps(v)
         [] OTHER -> FALSE

RECURSIVE ValidSub(_)
ValidSub(q) ==
  \A i \in 1..Len(q[2]) :
    LET k == q[2][i][1]  v == q[2][i][2] IN
    IF Dollar(k)
    THEN /\ k \in {<<"$and">>, <<"$or">>}
         /\ Arr(v)
         /\ \A j \in 1..Len(v[2]) : Doc(v[2][j]) /\ ValidSub(v[2][j])
    ELSE IF Doc(v) THEN ValidOps(v) ELSE ~Arr(v)

IdK == <<"_id">>
IdLookup(q) == HasField(q, IdK) /\ ~Doc(Field(q, IdK))

(* At the top level the literal _id is a key: it must be possible as one. *)
ValidFilter(q) ==
  IF IdLookup(q) THEN KeyValue(Field(q, IdK)) /\ ValidSub(DelField(q, IdK)) ELSE ValidSub(q)

(* only the key is wrong: a cursor may notice when it is first advanced *)
BadKeyOnly(q) == IdLookup(q) /\ ~KeyValue(Field(q, IdK)) /\ ValidSub(DelField(q, IdK))

B(x) == IF x THEN {"t"} ELSE {"f"}
NotS(s) == {IF x = "t" THEN "f" ELSE IF x = "f" THEN "t" ELSE "e" : x \in s}
(* The outcomes of a conjunction, of the set of the outcomes of its parts: if
   one part is false or fails, the others need not have been evaluated. *)
AndS(ss) == {x \in {"t", "f", "e"} :
              CASE x = "t" -> \A s \in ss : "t" \in s
                [] OTHER -> \E s \in ss : x \in s}
OrS(ss) == NotS(AndS({NotS(s) : s \in ss}))

CmpSet(f, v, P(_)) ==
  IF f = <<>> THEN {"f"} ELSE LET c == ValueCmp(f[1], v) IN IF c = 2 THEN {"e"} ELSE B(P(c))

MemberEq(f, c) ==
  \/ QEq(f, c)
  \/ Arr(f) /\ \E i \in 1..Len(f[2]) : QEq(f[2][i], c)
  \/ c[1] = "re" /\ RegexMatch(c, f)

(* one operator on a field; neg: inside of $not.  A missing field makes every
   comparison false, inside of $not as well. *)
RECURSIVE MatchOps(_, _, _, _), MatchOp(_, _, _, _, _)
MatchOp(p, op, v, doc, neg) ==
  LET f == GetPath(doc, p)
      N(s) == IF neg THEN NotS(s) ELSE s
      M(s) == IF f = <<>> THEN {"f"} ELSE N(s)
  IN
  CASE op = "$eq" -> M(CmpSet(f, v, LAMBDA c : c = 0))
    [] op = "$ne" -> M(NotS(CmpSet(f, v, LAMBDA c : c = 0)))
    [] op = "$gt" -> M(CmpSet(f, v, LAMBDA c : c = 1))
    [] op = "$gte" -> M(CmpSet(f, v, LAMBDA c : c \in {0, 1}))
    [] op = "$lt" -> M(CmpSet(f, v, LAMBDA c : c = -1))
    [] op = "$lte" -> M(CmpSet(f, v, LAMBDA c : c \in {0, -1}))
    [] op = "$in" -> N(B(\E i \in 1..Len(v[2]) : MemberEq(PathOrNull(doc, p), v[2][i])))
    [] op = "$nin" -> N(B(~\E i \in 1..Len(v[2]) : MemberEq(PathOrNull(doc, p), v[2][i])))
    [] op = "$all" -> N(B(Len(v[2]) > 0 /\ \A i \in 1..Len(v[2]) : MemberEq(PathOrNull(doc, p), v[2][i])))
    [] op = "$size" -> M(IF f = <<>> THEN {"f"}
                         ELSE IF ~Arr(f[1]) THEN {"e"}
                         ELSE B(v[1] = "l" /\ Len(f[1][2]) = v[2]))
    [] op = "$regex" -> M(IF f = <<>> THEN {"f"}
                          ELSE IF ~RegexValid(v) THEN {"e"} ELSE B(RegexMatch(v, f[1])))
    [] op = "$not" -> MatchOps(p, v, doc, ~neg)

MatchOps(p, ops, doc, neg) ==
  AndS({MatchOp(p, ops[2][i][1][1], ops[2][i][2], doc, neg) : i \in 1..Len(ops[2])})

RECURSIVE MatchSub(_, _)
MatchSub(q, doc) ==
  AndS({LET k == q[2][i][1]  v == q[2][i][2] IN
        IF k = <<"$and">> THEN AndS({MatchSub(v[2][j], doc) : j \in 1..Len(v[2])})
        ELSE IF k = <<"$or">> THEN OrS({MatchSub(v[2][j], doc) : j \in 1..Len(v[2])})
        ELSE IF Doc(v) THEN MatchOps(k, v, doc, FALSE)
        ELSE CmpSet(GetPath(doc, k), v, LAMBDA c : c = 0) : i \in 1..Len(q[2])})

Match(q, doc) ==
  IF IdLookup(q)
  THEN IF Field(q, IdK) # Field(doc, IdK) THEN {"f"} ELSE MatchSub(DelField(q, IdK), doc)
  ELSE MatchSub(q, doc)
=============================================================================
