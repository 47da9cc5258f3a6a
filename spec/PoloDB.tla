-------------------------------- MODULE PoloDB --------------------------------
(* The database as a state machine: the committed database, open transactions
   with their snapshots, and cursors.  Every action is one call of the library
   together with its result.                                                  *)
EXTENDS Store

VARIABLES
  db,     \* the committed database
  txns,   \* transaction -> [view, w, dirty, st]
  curs    \* cursor -> see CurOpen
vars == <<db, txns, curs>>

Init == db = <<>> /\ txns = <<>> /\ curs = <<>>

(* view:  what the transaction sees: its snapshot and its own writes
   w:     what it has written        dirty: what others committed since it began
   tried: the collections in which it called a writing operation, also in vain
   near:  those in which others did so since it began, and went through with it
   st:    open, done (committed or rolled back), failed (commit returned an error),
          gone (the handle was dropped) *)
NewTxn == [view |-> db, w |-> {}, dirty |-> {}, tried |-> {}, near |-> {}, st |-> "open"]
Open == {t \in DOMAIN txns : txns[t].st = "open"}
Soil(T, w, near) ==
  [t \in DOMAIN T |-> IF T[t].st = "open" THEN [T[t] EXCEPT !.dirty = @ \cup w, !.near = @ \cup near] ELSE T[t]]

Begin(s) == txns' = (s :> NewTxn) @@ txns /\ UNCHANGED <<db, curs>>

(* Others are writing, or have written, in the collection: the operation may be
   refused, because conflicts are detected when a document is written. *)
Contended(s, c) ==
  \/ s # 0 /\ c \in txns[s].near
  \/ \E t \in DOMAIN txns \ {s} :
       /\ c \in txns[t].tried
       /\ \/ txns[t].st \in {"open", "failed"}
          \/ txns[t].st = "gone" /\ \E x \in DOMAIN curs : curs[x].s = t

(* cursors of a transaction which itself goes on to write in the collection *)
Refuzz(s, c, view) ==
  [x \in DOMAIN curs |->
    LET cu == curs[x] IN
    IF s # 0 /\ cu.s = s /\ cu.c = c /\ ~cu.end
    THEN LET T == IF cu.plain THEN Matching(Sel(view, c, cu.q)) ELSE {}
         IN  [cu EXCEPT !.fuzzy = TRUE, !.ever = @ \cup T, !.always = @ \cap T]
    ELSE cu]

(* an operation of the transaction failed and was undone: its cursors may be lost *)
Upset(s) == [x \in DOMAIN curs |-> IF curs[x].s = s THEN [curs[x] EXCEPT !.may = TRUE] ELSE curs[x]]

(* an operation outside of transactions *)
Direct(e, out) ==
  /\ db' = out.db
  /\ txns' = Soil(txns, out.w, IF e.op \in WriteOps THEN {e.c} ELSE {})
  /\ UNCHANGED curs
(* what others wrote in the collection c and took back does not matter to the
   transaction s when it drops it (or indexes it) *)
Settled(s, c) ==
  LET t == txns[s]
      Rest(d) == {x \in d[c].docs : <<c, Id(x)>> \notin t.w}
  IN  IF HasColl(db, c) /\ HasColl(t.view, c) /\ Rest(db) = Rest(t.view)
      THEN {x \in t.dirty : x[1] # c \/ x[2] \in {Meta, Unidx} \/ x \in t.w}
      ELSE t.dirty
(* an operation inside of the transaction s *)
Inside(s, e, out) ==
  LET c == Get(e, "c", "") IN
  /\ txns' = [txns EXCEPT ![s].view = out.db, ![s].w = @ \cup out.w,
                           ![s].dirty = IF <<c, Meta>> \in out.w THEN Settled(s, c) ELSE @,
                           ![s].tried = IF e.op \in WriteOps THEN @ \cup {c} ELSE @]
  /\ curs' = IF out.w # {} THEN Refuzz(s, c, out.db)
             ELSE IF e.op \in WriteOps /\ out.k = "err" THEN Upset(s) ELSE curs
  /\ UNCHANGED db
Nothing == UNCHANGED vars

-----------------------------------------------------------------------------
(* commit *)
Conflict(w, dirty) ==
  \* dropping an index does not mind documents that were changed before
  \E k \in w, x \in dirty : k[1] = x[1] /\ (k = x \/ k[2] = Meta \/ x[2] \in {Meta, Unidx})

MergeColl(base, view, c, w) ==   \* the documents written by the transaction on top of the committed ones
  IF <<c, Meta>> \in w THEN view[c]
  ELSE LET ids == {k[2] : k \in {x \in w : x[1] = c}}
       IN  [base[c] EXCEPT !.docs = {d \in @ : Id(d) \notin ids} \cup {d \in view[c].docs : Id(d) \in ids},
                           !.idx = IF <<c, Unidx>> \in w THEN view[c].idx ELSE @]
Merge(base, view, w) ==
  LET touched == {k[1] : k \in w}
      names == {c \in DOMAIN base \cup DOMAIN view :
                  IF c \in touched THEN (IF <<c, Meta>> \in w THEN c \in DOMAIN view ELSE c \in DOMAIN base)
                  ELSE c \in DOMAIN base}
  IN  [c \in names |-> IF c \in touched THEN MergeColl(base, view, c, w) ELSE base[c]]

CanCommit(s) ==
  LET t == txns[s]  m == Merge(db, t.view, t.w) IN
  /\ t.st = "open"
  /\ ~Conflict(t.w, t.dirty)
  /\ \A c \in DOMAIN m : ~UniqueClash(m[c].docs, m[c].idx)
Finish(s, st) ==
  /\ txns' = [(IF st = "committed" THEN Soil(txns, txns[s].w, txns[s].tried) ELSE txns) EXCEPT ![s].st = IF st = "failed" THEN "failed" ELSE "done"]
  /\ curs' = [x \in DOMAIN curs |-> IF curs[x].s = s THEN [curs[x] EXCEPT !.fin = TRUE] ELSE curs[x]]

Commit(s) ==
  /\ CanCommit(s)
  /\ db' = Merge(db, txns[s].view, txns[s].w)
  /\ Finish(s, "committed")
MayRefuse(s) ==
  \E k \in txns[s].w : Contended(s, k[1])
CommitFails(s) ==
  /\ txns[s].st = "open"
  /\ MayRefuse(s)
  /\ Finish(s, "failed")
  /\ UNCHANGED db
Rollback(s) ==
  /\ txns[s].st # "done"
  /\ Finish(s, "done")
  /\ UNCHANGED db
Abandon(s) ==   \* a cursor still open keeps the snapshot, and the locks
  /\ txns' = [txns EXCEPT ![s].st = IF @ = "done" THEN "done" ELSE "gone"]
  /\ UNCHANGED <<db, curs>>

(* closing and opening the database, or a crash: what is not committed is lost *)
Reopen == db' = db /\ txns' = <<>> /\ curs' = <<>>

(* The process dies, or the power fails, while it carries out f (<<>>: nothing)
   outside of a transaction, or the commit of a transaction.  That is done
   completely or not at all; whatever has returned before is kept.           *)
Crashed(f, cand) ==
  IF f = <<>> THEN {db}
  ELSE LET s == Get(f[1], "s", 0) IN
       IF f[1].op = "commit"
       THEN {db} \cup (IF s \in DOMAIN txns /\ CanCommit(s) THEN {Merge(db, txns[s].view, txns[s].w)} ELSE {})
       ELSE IF s # 0 \/ f[1].op \notin WriteOps THEN {db}
       ELSE {db} \cup {out.db : out \in {x \in Outs(db, f[1], cand) : x.k = "ok"}}
Crash(f, cand) == db' \in Crashed(f, cand) /\ txns' = <<>> /\ curs' = <<>>

-----------------------------------------------------------------------------
(* cursors.  S: what it may yield (see Agg).  got: what it has.  may / must: an
   error may / must be met.  fuzzy: its own transaction has changed the
   collection since; then ever and always bound the rows.  fin: the transaction
   is finished: the rest may be refused, but it does not just end.           *)
ViewOf(s) == IF s = 0 \/ txns[s].st = "done" THEN db ELSE txns[s].view

NewCur(s, e) ==
  LET rs == ReadSpec(e)
      v == ViewOf(s)
      miss == ~HasColl(v, e.c)
      sel == Sel(v, e.c, rs.q)
      T == Matching(sel)
      S == IF miss THEN {<<>>} \cup (IF rs.valid THEN PipeFrom(rs.p, 1, {<<>>}) ELSE {})
           ELSE PipeFrom(rs.p, 1, {BlockOf(T)})
      bad == ~miss /\ BadKeyOnly(rs.q)
      must == ~miss /\ (bad \/ MustFail(sel))
  IN  [s |-> s, c |-> e.c, q |-> rs.q, plain |-> rs.p = <<>>,
       S |-> IF must /\ rs.p # <<>> THEN {<<<<"any">>>>} ELSE S,
       may |-> ~miss /\ (bad \/ MayFail(sel) \/ AnyRes(S)), must |-> must /\ ~Limited(rs.p),
       got |-> <<>>, end |-> FALSE, failed |-> FALSE, fin |-> FALSE,
       fuzzy |-> FALSE, ever |-> T, always |-> T]
CurInvalid(s, e) == HasColl(ViewOf(s), e.c) /\ LET rs == ReadSpec(e) IN ~rs.valid /\ ~(BadKeyOnly(rs.q) /\ rs.rest)

CurOpen(s, e) ==   \* it succeeds
  /\ ~BadName(e)
  /\ ~CurInvalid(s, e)
  /\ curs' = (e.cur :> NewCur(s, e)) @@ curs
  /\ UNCHANGED <<db, txns>>
CurOpenFails(s, e) ==
  /\ IF BadName(e) \/ ~ReadSpec(e).valid \/ (s # 0 /\ txns[s].st # "open") THEN TRUE ELSE NewCur(s, e).may
  /\ Nothing
CurRows(x, rows) ==
  LET cu == curs[x]
      got == cu.got \o rows IN
  /\ rows # <<>> => ~cu.end /\ ~cu.failed
  /\ IF cu.fuzzy
     THEN cu.plain => /\ Rng(rows) \subseteq cu.ever
                      /\ Cardinality({Id(got[i]) : i \in 1..Len(got)}) = Len(got)
     ELSE FitsPrefix(got, cu.S)
  /\ curs' = [curs EXCEPT ![x].got = got]
  /\ UNCHANGED <<db, txns>>
CurRow(x, row) == CurRows(x, <<row>>)
CurEnd(x) ==
  LET cu == curs[x] IN
  /\ \/ cu.end \/ cu.failed
     \/ ~cu.must /\ (IF cu.fuzzy THEN cu.plain => cu.always \subseteq Rng(cu.got) ELSE Fits(cu.got, cu.S))
  /\ curs' = [curs EXCEPT ![x].end = TRUE]
  /\ UNCHANGED <<db, txns>>
CurFails(x) ==
  LET cu == curs[x] IN
  /\ cu.may \/ cu.failed \/ cu.fin \/ (cu.fuzzy /\ ~cu.end)
  /\ curs' = [curs EXCEPT ![x].failed = TRUE]
  /\ UNCHANGED <<db, txns>>
CurClose(x) ==
  /\ curs' = [y \in DOMAIN curs \ {x} |-> curs[y]]
  /\ UNCHANGED <<db, txns>>

-----------------------------------------------------------------------------
(* One call e with the result r. *)
Call(e, r, cand) ==
  LET s == IF e.op = "list" THEN 0 ELSE Get(e, "s", 0) IN   \* transactions can not list collections
  IF e.op = "begin" THEN r.k = "ok" /\ Begin(s)
  ELSE IF e.op = "commit"
  THEN IF txns[s].st = "open" THEN (IF r.k = "ok" THEN Commit(s) ELSE r.k = "err" /\ CommitFails(s))
       ELSE r.k \in {"ok", "err"} /\ (txns[s].st = "failed" => r.k = "err") /\ Nothing
  ELSE IF e.op = "rollback"
  THEN IF txns[s].st = "done" THEN r.k \in {"ok", "err"} /\ Nothing ELSE r.k = "ok" /\ Rollback(s)
  ELSE IF e.op = "abandon" THEN r.k = "ok" /\ Abandon(s)
  ELSE IF e.op = "reopen" THEN r.k = "ok" /\ Reopen
  ELSE IF e.op = "idle" THEN r.k = "ok" /\ Nothing            \* time passes
  ELSE IF e.op = "crash" THEN r.k = "ok" /\ Crash(IF Has_(e, "f") THEN <<e.f>> ELSE <<>>, cand)
  ELSE IF e.op = "stale" THEN (IF r.k = "err" THEN r.e = "closed" ELSE r.k = "none") /\ Nothing
  ELSE IF e.op = "cur_open" THEN (IF r.k = "ok" THEN CurOpen(s, e) ELSE r.k = "err" /\ CurOpenFails(s, e))
  ELSE IF e.op = "cur_next"
  THEN IF e.cur \notin DOMAIN curs THEN Nothing
       ELSE IF r.k = "ok" THEN (IF r.docs = <<>> THEN CurEnd(e.cur) ELSE CurRow(e.cur, r.docs[1]))
       ELSE r.k = "err" /\ CurFails(e.cur)
  ELSE IF e.op = "cur_close" THEN CurClose(e.cur)
  ELSE IF s = 0
  THEN \/ \E out \in Outs(db, e, cand) : Accept(out, r) /\ Direct(e, out)
       \/ e.op \in WriteOps /\ r.k = "err" /\ r.e = "rdb" /\ Contended(0, e.c) /\ Nothing
  ELSE IF txns[s].st = "open"
  THEN \/ \E out \in Outs(txns[s].view, e, cand) : Accept(out, r) /\ Inside(s, e, out)
       \/ /\ e.op \in WriteOps /\ r.k = "err" /\ r.e = "rdb" /\ Contended(s, e.c)
          /\ txns' = [txns EXCEPT ![s].tried = @ \cup {e.c}] /\ curs' = Upset(s) /\ UNCHANGED db
  ELSE r.k = "err" /\ Nothing   \* the transaction is finished: it takes no more operations

-----------------------------------------------------------------------------
(* Properties of the state *)
UniqueIds == \A c \in DOMAIN db : Cardinality({Id(d) : d \in db[c].docs}) = Cardinality(db[c].docs)
UniqueValues == \A c \in DOMAIN db : ~UniqueClash(db[c].docs, db[c].idx)
IndexesHold == \A c \in DOMAIN db : \A d \in db[c].docs : ~Unindexable(d, db[c].idx)
KeysHold == \A c \in DOMAIN db : \A d \in db[c].docs : HasField(d, IdK) /\ KeyValue(Id(d))
=============================================================================
