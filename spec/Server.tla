-------------------------------- MODULE Server --------------------------------
(* The server: commands of several connections, carried out one after another on
   the database of PoloDB.tla, with sessions and server cursors.

   A command may consist of several statements and its reply of several rows:
   it is carried out in steps.  pc holds where it stands:
     ph   "start", "stmt", "rows", "done"
     s    the transaction it belongs to (0: none)    i    statements or rows done
     n, m what the statements have done so far
   sess: session -> [s, num]: its open transaction and the number it was given.
   The open cursors of the server are the cursors of PoloDB.tla, with the ids
   that were given to the clients as their names.                             *)
EXTENDS PoloDB

VARIABLES sess, pc
svars == <<db, txns, curs, sess, pc>>

Idle == [ph |-> "start", s |-> 0, i |-> 0, n |-> 0, m |-> 0]
SInit == Init /\ sess = <<>> /\ pc = Idle

(* replies: a message with moreToCome has none, it may have failed or not *)
Okay(r) == r.k \in {"ok", "none"}
Fails(r) == r.k \in {"err", "none"}
Says(r, f, v) == r.k = "ok" => Has_(r, f) /\ r[f] = v
Done == pc' = [pc EXCEPT !.ph = "done"]
Phase(p) == pc' = [pc EXCEPT !.ph = p, !.i = 0]
Same == UNCHANGED <<db, txns, curs>>

Statements == {"insert", "update", "delete"}
Reads == {"find", "aggregate"}

(* a command with a number for its session's transaction belongs to that *)
Names(e) == Has_(e, "txn")
Joins(e) == Has_(e, "lsid") /\ e.lsid \in DOMAIN sess /\ sess[e.lsid].num = e.txn
After(e) == IF e.op \in Statements THEN "stmt" ELSE IF e.op \in Reads \cup {"getmore"} THEN "open" ELSE "other"

(* bad: the generator knows that the server can not understand the command *)
StartStep(e, r, new) ==
  /\ pc.ph = "start"
  /\ IF Get(e, "bad", 0) = 1
     THEN Fails(r) /\ Done /\ Same /\ UNCHANGED sess
     ELSE IF Get(e, "start", 0) = 1
     THEN \* the previous transaction of the session is rolled back
          LET old == IF e.lsid \in DOMAIN sess THEN sess[e.lsid].s ELSE 0 IN
          /\ txns' = (new :> NewTxn) @@ [t \in DOMAIN txns |-> IF t = old THEN [txns[t] EXCEPT !.st = "done"] ELSE txns[t]]
          /\ curs' = [x \in DOMAIN curs |-> IF old # 0 /\ curs[x].s = old THEN [curs[x] EXCEPT !.fin = TRUE] ELSE curs[x]]
          /\ sess' = (e.lsid :> [s |-> new, num |-> e.txn]) @@ sess
          /\ pc' = [pc EXCEPT !.ph = After(e), !.s = new]
          /\ UNCHANGED db
     ELSE IF Names(e)
     THEN IF Joins(e)
          THEN pc' = [pc EXCEPT !.ph = After(e), !.s = sess[e.lsid].s] /\ Same /\ UNCHANGED sess
          ELSE Fails(r) /\ Done /\ Same /\ UNCHANGED sess
     ELSE Phase(After(e)) /\ Same /\ UNCHANGED sess

(* one operation of the library on the data the command works on.  No outcome of
   the reply is known yet.                                                    *)
View == IF pc.s = 0 THEN db ELSE txns[pc.s].view
Perform(e, out) == IF pc.s = 0 THEN Direct(e, out) ELSE Inside(pc.s, e, out)
Refused(c) == Contended(pc.s, c) /\
  IF pc.s = 0 THEN Same
  ELSE txns' = [txns EXCEPT ![pc.s].tried = @ \cup {c}] /\ curs' = Upset(pc.s) /\ UNCHANGED db

Stmt(e, i) ==   \* the i-th statement as an operation of the library
  IF e.op = "insert" THEN [op |-> "insert_many", c |-> e.c, docs |-> e.docs]
  ELSE IF e.op = "update"
  THEN [op |-> IF Get(e.stmts[i], "multi", 0) = 1 THEN "update_many" ELSE "update_one", c |-> e.c,
        q |-> e.stmts[i].q, u |-> e.stmts[i].u, upsert |-> Get(e.stmts[i], "upsert", 0)]
  ELSE [op |-> IF Get(e.stmts[i], "limit", 0) = 1 THEN "delete_one" ELSE "delete_many", c |-> e.c, q |-> e.stmts[i].q]
StmtCount(e) == IF e.op = "insert" THEN 1 ELSE Len(e.stmts)

StmtStep(e, r, cand) ==
  /\ pc.ph = "stmt"
  /\ UNCHANGED sess
  /\ IF pc.i = StmtCount(e)
     THEN /\ Okay(r)
          /\ Says(r, "n", pc.n)
          /\ e.op = "update" => Says(r, "nm", pc.m)
          /\ Done /\ Same
     ELSE LET st == Stmt(e, pc.i + 1) IN
          \/ \E out \in Outs(View, st, cand) :
               IF out.k = "ok"
               THEN LET x == out.res IN
                    /\ Okay(r)
                    /\ Perform(st, out)
                    /\ pc' = [pc EXCEPT !.i = @ + 1,
                                        !.n = @ + (IF x[1] = "ids" THEN Len(x[2]) ELSE x[2]),
                                        !.m = @ + (IF x[1] = "mn" THEN x[3] ELSE 0)]
               ELSE Fails(r) /\ Perform(st, out) /\ Done
          \/ Fails(r) /\ Refused(e.c) /\ Done
(* the statements before one that fails stay done *)
StmtBefore(e, r, cand) ==   \* they were carried out although the reply is an error
  /\ pc.ph = "stmt" /\ pc.i < StmtCount(e) - 1 /\ r.k = "err"
  /\ LET st == Stmt(e, pc.i + 1) IN
     \E out \in Outs(View, st, cand) :
       /\ out.k = "ok"
       /\ Perform(st, out)
       /\ pc' = [pc EXCEPT !.i = @ + 1]
  /\ UNCHANGED sess

-----------------------------------------------------------------------------
(* cursors.  The cursor of a command that is being answered is called "new". *)
Size(e) == IF e.op = "find" /\ Get(e, "single", 0) = 1 THEN Get(e, "batch", 1000000) ELSE Get(e, "batch", 101)
NsOf(e) == "db." \o e.c
ReadOf(e) ==
  IF e.op = "find" /\ ~Has_(e, "q") THEN [x \in DOMAIN e \cup {"q"} |-> IF x = "q" THEN EmptyQ ELSE e[x]] ELSE e
OpenStep(e, r) ==
  /\ pc.ph = "open"
  /\ UNCHANGED sess
  /\ IF e.op = "getmore"
     THEN IF e.id \in DOMAIN curs
          THEN /\ curs' = ("new" :> curs[e.id]) @@ [x \in DOMAIN curs \ {e.id} |-> curs[x]]
               /\ Phase("rows") /\ UNCHANGED <<db, txns>>
          ELSE Fails(r) /\ Done /\ Same
     ELSE LET q == [op |-> "cur_open", cur |-> "new"] @@ ReadOf(e) IN
          \/ CurOpen(pc.s, q) /\ Phase("rows")
          \/ Fails(r) /\ CurOpenFails(pc.s, q) /\ Done

AtEnd(cu) ==
  \/ cu.end \/ cu.failed
  \/ ~cu.must /\ (IF cu.fuzzy THEN cu.plain => cu.always \subseteq Rng(cu.got) ELSE Fits(cu.got, cu.S))
(* the rows can not be had: the cursor, if the client knows it, has failed *)
CurFailsEnd(e) ==
  LET cu == curs["new"]
      rest == [x \in DOMAIN curs \ {"new"} |-> curs[x]] IN
  /\ cu.may \/ cu.failed \/ cu.fin \/ (cu.fuzzy /\ ~cu.end)
  /\ curs' = IF e.op = "getmore" THEN (e.id :> [cu EXCEPT !.failed = TRUE]) @@ rest ELSE rest
  /\ Done
  /\ UNCHANGED <<db, txns>>

RowStep(e, r) ==
  /\ pc.ph = "rows"
  /\ UNCHANGED sess
  /\ IF r.k = "err" THEN CurFailsEnd(e)
     ELSE IF pc.i = 0 /\ r.docs # <<>>
     THEN CurRows("new", r.docs) /\ pc' = [pc EXCEPT !.i = Len(r.docs)]
     ELSE /\ Len(r.docs) <= Size(e)
          /\ r.ns = NsOf(e)
          /\ Done
          /\ UNCHANGED <<db, txns>>
          /\ LET rest == [x \in DOMAIN curs \ {"new"} |-> curs[x]]
                 cu == curs["new"] IN
             IF r.id = "0"
             THEN \* the end, or nothing more was asked for
                  /\ \/ e.op = "find" /\ Get(e, "single", 0) = 1 /\ Len(r.docs) = Size(e)
                     \/ AtEnd(cu)
                  /\ curs' = rest
             ELSE \* an id that no other open cursor has; and there is progress
                  /\ r.id \notin DOMAIN rest
                  /\ ~(e.op = "find" /\ Get(e, "single", 0) = 1)
                  /\ e.op = "getmore" => r.id = e.id
                  /\ Size(e) > 0 => r.docs # <<>>
                  /\ curs' = (r.id :> cu) @@ rest

-----------------------------------------------------------------------------
EndOf(e) == sess' = [x \in DOMAIN sess \ {e.lsid} |-> sess[x]]
OtherStep(e, r) ==
  /\ pc.ph = "other"
  /\ IF e.op = "commit"
     THEN IF pc.s = 0 THEN Fails(r) /\ Done /\ Same /\ UNCHANGED sess
          ELSE /\ \/ Okay(r) /\ Commit(pc.s)
                  \/ Fails(r) /\ CommitFails(pc.s)
               /\ EndOf(e) /\ Done
     ELSE IF e.op = "abort"
     THEN IF pc.s = 0 THEN Fails(r) /\ Done /\ Same /\ UNCHANGED sess
          ELSE Okay(r) /\ Rollback(pc.s) /\ EndOf(e) /\ Done
     ELSE IF e.op = "kill"
     THEN /\ Okay(r)
          /\ curs' = [x \in DOMAIN curs \ Rng(e.ids) |-> curs[x]]
          /\ Done /\ UNCHANGED <<db, txns, sess>>
     ELSE \* ping, hello
          Okay(r) /\ Done /\ Same /\ UNCHANGED sess

(* killed, and the database opened by the library *)
Final(e, r) ==
  /\ e.op = "final"
  /\ pc.ph = "start"
  /\ \E out \in Outs(db, [op |-> "dump"], <<>>) : Accept(out, r)
  /\ Reopen /\ sess' = <<>> /\ Done

(* killed and started again: the data is what it was, transactions, sessions and
   cursors are gone                                                           *)
Restart(r) == pc.ph = "start" /\ r.k = "ok" /\ Reopen /\ sess' = <<>> /\ Done
(* a client closes its connection: nothing else belongs to it; or time passes *)
Hangup(r) == pc.ph = "start" /\ r.k = "ok" /\ Done /\ Same /\ UNCHANGED sess

(* one step of the command e whose reply is r *)
Step(e, r, cand, new) ==
  IF e.op = "final" THEN Final(e, r)
  ELSE IF e.op = "restart" THEN Restart(r)
  ELSE IF e.op \in {"hangup", "idle"} THEN Hangup(r)
  ELSE /\ r.k \in {"ok", "err", "none"}
       /\ r.form = 1
       /\ \/ StartStep(e, r, new)
          \/ StmtStep(e, r, cand)
          \/ StmtBefore(e, r, cand)
          \/ OpenStep(e, r)
          \/ RowStep(e, r)
          \/ OtherStep(e, r)
=============================================================================
