-------------------------------- MODULE Store --------------------------------
(* The operations on one version of the database, as a relation.

   A database is a function from collection names to
     [docs: the set of its documents, idx: index name (bytes) -> [path, unique]].
   Outs(db, e, cand) is the set of the possible outcomes of operation e:
     [k |-> "ok", db, w, res]   db: the database afterwards; w: what was written,
                                <<collection, _id>> or <<collection, <<"meta">>>>;
                                res: what it returns (see Accept)
     [k |-> "err", db, w, cls]  cls: the classes the error may have.  It has no effect.
   cand: the identifiers the i-th document may be given if it has none.       *)
EXTENDS Agg

Has_(e, f) == f \in DOMAIN e
Get(e, f, dflt) == IF f \in DOMAIN e THEN e[f] ELSE dflt

Meta == <<"meta">>     \* the collection itself and the creation of an index
Unidx == <<"unidx">>   \* an index was dropped
EmptyColl == [docs |-> {}, idx |-> <<>>]
HasColl(db, c) == c \in DOMAIN db
Docs(db, c) == IF HasColl(db, c) THEN db[c].docs ELSE {}
Idx(db, c) == IF HasColl(db, c) THEN db[c].idx ELSE <<>>
WithColl(db, c, x) == (c :> x) @@ db
NoColl(db, c) == [n \in DOMAIN db \ {c} |-> db[n]]
Id(d) == Field(d, IdK)

Ok(db, w, res) == [k |-> "ok", db |-> db, w |-> w, res |-> res]
Err(db, cls) == [k |-> "err", db |-> db, w |-> {}, cls |-> cls]

(* names: cb carries the bytes of unusual ones *)
BadBytes(b) == \E i \in 1..Len(b) : b[i] \in {0, 9, 10, 13, 36, 46}
BadName(e) == Has_(e, "cb") /\ BadBytes(e.cb)
EmptyName(e) == e.c = ""

-----------------------------------------------------------------------------
(* indexes *)
IdxVal(d, ix) == GetPath(d, ix.path)
Unindexable(d, idx) == \E n \in DOMAIN idx : LET v == IdxVal(d, idx[n]) IN v # <<>> /\ ~IndexValue(v[1])
SameUnique(d1, d2, idx) ==
  \E n \in DOMAIN idx : idx[n].unique /\ LET v == IdxVal(d1, idx[n]) IN v # <<>> /\ v = IdxVal(d2, idx[n])
UniqueClash(docs, idx) ==
  /\ \E n \in DOMAIN idx : idx[n].unique
  /\ \E d1, d2 \in docs : Id(d1) # Id(d2) /\ SameUnique(d1, d2, idx)

-----------------------------------------------------------------------------
(* insert *)
NoId(d) == FieldOr(d, IdK, NullV) = NullV
WithId(d, id) == SetField(d, IdK, id)

(* the ways inserting d (which has an _id) fails *)
InsertErrs(coll, d) ==
  (IF ~KeyValue(Id(d)) THEN {"other"} ELSE {})
  \cup (IF \E x \in coll.docs : Id(x) = Id(d) THEN {"dup"} ELSE {})
  \cup (IF Unindexable(d, coll.idx) THEN {"other"} ELSE {})
  \cup (IF \E x \in coll.docs : SameUnique(x, d, coll.idx) THEN {"dup"} ELSE {})

RECURSIVE InsertAll(_, _, _, _, _)
(* set of <<"ok", collection, ids>> and <<"err", classes>> *)
InsertAll(coll, ds, i, ids, cand) ==
  IF i > Len(ds) THEN {<<"ok", coll, ids>>}
  ELSE LET new == IF NoId(ds[i])
                  THEN {WithId(ds[i], x) : x \in IF i \in DOMAIN cand THEN {y \in cand[i] : y[1] = "oid" /\ \A z \in coll.docs : Id(z) # y}
                                                 ELSE {<<"oid", <<i>>>>}}    \* not known (the insert may fail)
                  ELSE {ds[i]}
       IN  UNION {LET er == InsertErrs(coll, d) IN
                  IF er # {} THEN {<<"err", er>>}
                  ELSE InsertAll([coll EXCEPT !.docs = @ \cup {d}], ds, i + 1, Append(ids, Id(d)), cand) : d \in new}

(* nothing to decide: what InsertAll comes to *)
Plainly(coll, ds) ==
  /\ Len(ds) > 8 /\ coll.idx = EmptyColl.idx
  /\ \A i \in 1..Len(ds) : ~NoId(ds[i])
  /\ LET ids == {Id(ds[i]) : i \in 1..Len(ds)} IN
     /\ Cardinality(ids) = Len(ds)
     /\ \A x \in ids : KeyValue(x)
     /\ ids \cap {Id(d) : d \in coll.docs} = {}

InsertOuts(db, e, ds, cand, Res(_)) ==
  IF BadName(e) \/ EmptyName(e) THEN {Err(db, {"other"})}
  ELSE LET coll == IF HasColl(db, e.c) THEN db[e.c] ELSE EmptyColl IN
       {IF r[1] = "err" THEN Err(db, r[2])
        ELSE Ok(WithColl(db, e.c, r[2]),
                {<<e.c, Id(d)>> : d \in r[2].docs \ coll.docs} \cup (IF HasColl(db, e.c) THEN {} ELSE {<<e.c, Meta>>}),
                Res(r[3])) : r \in IF Plainly(coll, ds)
                                   THEN {<<"ok", [coll EXCEPT !.docs = @ \cup {ds[i] : i \in 1..Len(ds)}], [i \in 1..Len(ds) |-> Id(ds[i])]>>}
                                   ELSE InsertAll(coll, ds, 1, <<>>, cand)}

-----------------------------------------------------------------------------
(* selection: ok needs every document decided, an error one which may fail *)
Sel(db, c, q) == [d \in Docs(db, c) |-> Match(q, d)]
Matching(sel) == {d \in DOMAIN sel : "t" \in sel[d]}
MayFail(sel) == \E d \in DOMAIN sel : "e" \in sel[d]
MustFail(sel) == \E d \in DOMAIN sel : sel[d] = {"e"}

FindOpts(e) ==   \* the pipeline of a find
  (IF Has_(e, "sort") THEN <<<<"o", <<<<<<"$sort">>, e.sort>>>>>>>> ELSE <<>>)
  \o (IF Has_(e, "skip") THEN <<<<"o", <<<<<<"$skip">>, <<"l", e.skip>>>>>>>>>> ELSE <<>>)
  \o (IF Has_(e, "limit") THEN <<<<"o", <<<<<<"$limit">>, <<"l", e.limit>>>>>>>>>> ELSE <<>>)
Limited(p) == \E i \in 1..Len(p) : StageName(p[i]) = <<"$limit">>

(* what a reading operation asks for: a filter q and a pipeline p *)
EmptyQ == <<"o", <<>>>>
MatchFirst(pipe) == /\ pipe # <<>>
                    /\ Len(pipe[1][2]) = 1
                    /\ StageName(pipe[1]) = <<"$match">>
                    /\ Doc(StageArg(pipe[1]))
ReadSpec(e) ==
  IF ~Has_(e, "pipe") THEN LET p == FindOpts(e) IN [q |-> e.q, p |-> p, valid |-> ValidFilter(e.q) /\ ValidPipe(p), rest |-> ValidPipe(p)]
  ELSE IF MatchFirst(e.pipe)
  THEN LET rest == \A i \in 2..Len(e.pipe) : ValidStage(e.pipe[i], FALSE) IN
       [q |-> StageArg(e.pipe[1]), p |-> Tail(e.pipe),
        valid |-> ValidFilter(StageArg(e.pipe[1])) /\ rest, rest |-> rest]
  ELSE [q |-> EmptyQ, p |-> e.pipe, valid |-> ValidPipe(e.pipe), rest |-> TRUE]

ReadOuts(db, e) ==
  LET rs == ReadSpec(e) IN
  IF BadName(e) THEN {Err(db, {"other"})}
  ELSE IF ~HasColl(db, e.c)
  THEN {Ok(db, {}, <<"rows", {<<>>}>>)}
       \cup (IF ~rs.valid THEN {Err(db, {"other"})}
             ELSE {Ok(db, {}, <<"rows", PipeFrom(rs.p, 1, {<<>>})>>)})
  ELSE IF ~rs.valid THEN {Err(db, {"other"})}
  ELSE LET sel == Sel(db, e.c, rs.q)
           S == PipeFrom(rs.p, 1, {BlockOf(Matching(sel))})
           free == MustFail(sel) /\ Limited(rs.p)
       IN  (IF MustFail(sel) /\ ~free THEN {}
            ELSE {Ok(db, {}, <<"rows", IF free THEN {<<<<"any">>>>} ELSE S>>)})
           \cup (IF MayFail(sel) \/ AnyRes(S) THEN {Err(db, {"other"})} ELSE {})

FindOneOuts(db, e) ==
  LET vq == ValidFilter(e.q) IN
  IF BadName(e) THEN {Err(db, {"other"})}
  ELSE IF ~HasColl(db, e.c)
  THEN {Ok(db, {}, <<"oneof", {}>>)} \cup (IF vq THEN {} ELSE {Err(db, {"other"})})
  ELSE IF ~vq THEN {Err(db, {"other"})}
  ELSE LET sel == Sel(db, e.c, e.q)  T == Matching(sel) IN
       (IF T = {} /\ MustFail(sel) THEN {} ELSE {Ok(db, {}, <<"oneof", T>>)})
       \cup (IF MayFail(sel) THEN {Err(db, {"other"})} ELSE {})

-----------------------------------------------------------------------------
(* update: the documents of T become those of the operators *)
UpdateDocs(db, c, T, u) ==
  LET coll == db[c]
      res == [d \in T |-> Apply(u, d)]
      bad == {d \in T : res[d][1] = "err"}
      good == T \ bad
      chg == {d \in good : res[d][3]}
      new == {res[d][2] : d \in chg}
      docs2 == (coll.docs \ chg) \cup new
      \* a value may be taken over from a document which is changed later
      transient == \E d1, d2 \in chg : d1 # d2 /\ SameUnique(res[d1][2], d2, coll.idx)
      errs == (IF bad # {} THEN {"other"} ELSE {})
              \cup (IF \E d \in new : Unindexable(d, coll.idx) THEN {"other"} ELSE {})
              \cup (IF UniqueClash(docs2, coll.idx) THEN {"dup"} ELSE {})
      outs == IF errs # {} THEN {Err(db, errs \cup (IF transient THEN {"dup"} ELSE {}))}
              ELSE {Ok(WithColl(db, c, [coll EXCEPT !.docs = docs2]), {<<c, Id(d)>> : d \in chg},
                       <<"mn", Cardinality(T), Cardinality(chg)>>)}
                   \cup (IF transient THEN {Err(db, {"dup"})} ELSE {})
  IN  outs

Upserting(e) == Get(e, "upsert", 0) = 1 /\ HasSet(e.u)
UpsertOuts(db, e, cand) ==
  LET d == UpsertDoc(e.q, e.u) IN
  IF d = <<>> THEN {Err(db, {"other"})}
  ELSE InsertOuts(db, e, d, cand, LAMBDA ids : <<"mn", 0, 0>>)

UpdateOuts(db, e, many, cand) ==
  LET valid == ValidFilter(e.q) /\ ValidUpdate(e.u)
      none == IF Upserting(e) THEN UpsertOuts(db, e, cand) ELSE {Ok(db, {}, <<"mn", 0, 0>>)}
  IN
  IF BadName(e) THEN {Err(db, {"other"})}
  ELSE IF ~HasColl(db, e.c) THEN none \cup (IF valid THEN {} ELSE {Err(db, {"other"})})
  ELSE IF ~valid THEN {Err(db, {"other"})}
  ELSE LET sel == Sel(db, e.c, e.q)
           T == Matching(sel)
           fail == IF MayFail(sel) THEN {Err(db, {"other"})} ELSE {}
       IN  IF many
           THEN fail \cup (IF MustFail(sel)
                           THEN {}
                           ELSE IF T = {} THEN none ELSE UpdateDocs(db, e.c, T, e.u))
           ELSE fail \cup (IF T = {} THEN (IF MustFail(sel) THEN {} ELSE none)
                           ELSE UNION {UpdateDocs(db, e.c, {d}, e.u) : d \in T})

DeleteOuts(db, e, many) ==
  LET valid == ValidFilter(e.q)
      Del(T) == Ok(WithColl(db, e.c, [db[e.c] EXCEPT !.docs = @ \ T]), {<<e.c, Id(d)>> : d \in T}, <<"n", Cardinality(T)>>)
  IN
  IF BadName(e) THEN {Err(db, {"other"})}
  ELSE IF ~HasColl(db, e.c) THEN {Ok(db, {}, <<"n", 0>>)} \cup (IF valid THEN {} ELSE {Err(db, {"other"})})
  ELSE IF ~valid THEN {Err(db, {"other"})}
  ELSE LET sel == Sel(db, e.c, e.q)
           T == Matching(sel)
           fail == IF MayFail(sel) THEN {Err(db, {"other"})} ELSE {}
       IN  fail \cup (IF many
                      THEN (IF MustFail(sel) THEN {} ELSE {Del(T)})
                      ELSE IF T = {} THEN (IF MustFail(sel) THEN {} ELSE {Del({})})
                      ELSE {Del({d}) : d \in T})

-----------------------------------------------------------------------------
(* collections and indexes *)
CharCode(c) == 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c
RECURSIVE SegBytes(_, _), KeyBytes(_, _)
SegBytes(s, i) == IF i > Len(s) THEN <<>> ELSE <<CharCode(SubSeq(s, i, i))>> \o SegBytes(s, i + 1)
KeyBytes(k, i) ==   \* the default name of an index: dots become underscores
  SegBytes(k[i], 1) \o (IF i = Len(k) THEN <<>> ELSE <<95>> \o KeyBytes(k, i + 1))
IndexName(e) == IF Has_(e, "name") THEN e.name ELSE KeyBytes(e.keys[2][1][1], 1) \o <<95, 49>>
One(v) == v \in {<<"i", 1>>, <<"l", 1>>}

CreateIndexOuts(db, e) ==
  IF BadName(e) \/ EmptyName(e) \/ Len(e.keys[2]) # 1 \/ ~One(e.keys[2][1][2])
     \/ (Has_(e, "name") /\ BadBytes(e.name))
  THEN {Err(db, {"other"})}
  ELSE LET coll == IF HasColl(db, e.c) THEN db[e.c] ELSE EmptyColl
           n == IndexName(e)
           ix == [path |-> e.keys[2][1][1], unique |-> Get(e, "unique", 0) = 1]
           errs == (IF \E d \in coll.docs : Unindexable(d, n :> ix) THEN {"other"} ELSE {})
                   \cup (IF UniqueClash(coll.docs, n :> ix) THEN {"dup"} ELSE {})
       IN  IF n \in DOMAIN coll.idx
           THEN (IF coll.idx[n] = ix THEN {Ok(db, {}, <<"none">>)} ELSE {Err(db, {"other"})})
           ELSE IF errs # {} THEN {Err(db, errs)}
           ELSE {Ok(WithColl(db, e.c, [coll EXCEPT !.idx = (n :> ix) @@ @]), {<<e.c, Meta>>}, <<"none">>)}

DropIndexOuts(db, e) ==
  IF BadName(e) THEN {Err(db, {"other"})}
  ELSE IF e.name \notin DOMAIN Idx(db, e.c) THEN {Ok(db, {}, <<"none">>)}
  ELSE {Ok(WithColl(db, e.c, [db[e.c] EXCEPT !.idx = [n \in DOMAIN @ \ {e.name} |-> @[n]]]),
           {<<e.c, Unidx>>}, <<"none">>)}

DropOuts(db, e) ==
  IF BadName(e) THEN {Err(db, {"other"})}
  ELSE IF ~HasColl(db, e.c) THEN {Ok(db, {}, <<"none">>)}
  ELSE {Ok(NoColl(db, e.c), {<<e.c, Meta>>}, <<"none">>)}

CreateCollOuts(db, e) ==
  IF BadName(e) \/ EmptyName(e) \/ HasColl(db, e.c) THEN {Err(db, {"other"})}
  ELSE {Ok(WithColl(db, e.c, EmptyColl), {<<e.c, Meta>>}, <<"none">>)}

-----------------------------------------------------------------------------
WriteOps == {"insert_one", "insert_many", "update_one", "update_many", "delete_one", "delete_many",
             "create_index", "drop_index", "drop", "create_coll"}
ReadOps == {"find", "find_one", "aggregate", "count", "list", "dump"}

Outs(db, e, cand) ==
  CASE e.op = "insert_one" -> InsertOuts(db, e, <<e.doc>>, cand, LAMBDA ids : <<"ids", ids>>)
    [] e.op = "insert_many" -> InsertOuts(db, e, e.docs, cand, LAMBDA ids : <<"ids", ids>>)
    [] e.op \in {"find", "aggregate"} -> ReadOuts(db, e)
    [] e.op = "find_one" -> FindOneOuts(db, e)
    [] e.op = "count" -> IF BadName(e) THEN {Err(db, {"other"})} ELSE {Ok(db, {}, <<"n", Cardinality(Docs(db, e.c))>>)}
    [] e.op = "update_one" -> UpdateOuts(db, e, FALSE, cand)
    [] e.op = "update_many" -> UpdateOuts(db, e, TRUE, cand)
    [] e.op = "delete_one" -> DeleteOuts(db, e, FALSE)
    [] e.op = "delete_many" -> DeleteOuts(db, e, TRUE)
    [] e.op = "create_index" -> CreateIndexOuts(db, e)
    [] e.op = "drop_index" -> DropIndexOuts(db, e)
    [] e.op = "drop" -> DropOuts(db, e)
    [] e.op = "create_coll" -> CreateCollOuts(db, e)
    [] e.op = "list" -> {Ok(db, {}, <<"names", DOMAIN db>>)}
    [] e.op = "dump" -> {Ok(db, {}, <<"dump", db>>)}

(* Does the observed result r agree with the outcome? *)
Rng(s) == {s[i] : i \in 1..Len(s)}

(* rows read into a struct with an integer n: those of another shape are errors.
   typed: all rows, in the same order; one: what find_one gives.              *)
NKey == <<"n">>
AsLong(v) == <<IF v[1] \in {"ix", "lx"} THEN "lx" ELSE "l", v[2]>>
Shaped(d) ==
  IF HasField(d, NKey) /\ Field(d, NKey)[1] \in {"i", "l", "ix", "lx"} THEN <<1, AsLong(Field(d, NKey))>> ELSE <<0>>
TypedRows(r) ==
  /\ Has_(r, "typed") => r.typed = [i \in 1..Len(r.docs) |-> Shaped(r.docs[i])]
  /\ Has_(r, "one") => IF r.docs = <<>> THEN r.one = <<>> ELSE Len(r.one) = 1 /\ r.one[1] \in Rng(r.typed)
Accept(out, r) ==
  IF r.k = "err" THEN out.k = "err" /\ r.e \in out.cls
  ELSE /\ r.k = "ok"
       /\ out.k = "ok"
       /\ LET x == out.res IN
          CASE x[1] = "none" -> TRUE
            [] x[1] = "ids" -> r.ids = x[2] /\ Get(r, "extra", 0) = 0
            [] x[1] = "rows" -> Fits(r.docs, x[2]) /\ TypedRows(r)
            [] x[1] = "oneof" -> IF r.docs = <<>> THEN x[2] = {} ELSE Len(r.docs) = 1 /\ r.docs[1] \in x[2]
            [] x[1] = "n" -> r.n = x[2]
            [] x[1] = "mn" -> r.m = x[2] /\ r.n = x[3]
            [] x[1] = "names" -> Rng(r.names) = x[2] /\ Len(r.names) = Cardinality(x[2])
            [] x[1] = "dump" ->
                 /\ Len(r.colls) = Cardinality(DOMAIN x[2])
                 /\ {r.colls[i][1] : i \in 1..Len(r.colls)} = DOMAIN x[2]
                 /\ \A i \in 1..Len(r.colls) :
                      LET D == x[2][r.colls[i][1]].docs  ds == r.colls[i][2]
                      IN  Len(ds) = Cardinality(D) /\ Rng(ds) = D
=============================================================================
