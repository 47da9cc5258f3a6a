------------------------------- MODULE MCPoloDB -------------------------------
(* A small database explored exhaustively: a collection with two documents, two
   transactions and operations outside of them, in every interleaving of at most
   MaxSteps calls.  What is required of transactions is stated here without
   reference to how the actions of PoloDB.tla work (write sets, conflicts).

   With Record, the calls themselves are part of the state and are printed when
   no transaction is open: these are the histories that are run against the real
   database (py/hist.py).                                                     *)
EXTENDS PoloDB, Json, IOUtils

CONSTANTS MaxSteps, Theme, Record

VARIABLES hist, start, did, n
mcvars == <<db, txns, curs, hist, start, did, n>>
MCView == IF Record THEN <<db, txns, curs, hist, n>> ELSE <<db, txns, curs, start, did, n>>

Key(k) == <<k>>
I32(x) == <<"i", x>>
D(id, k, v) == <<"o", <<<<Key("_id"), I32(id)>>, <<Key(k), I32(v)>>>>>>
Q(id) == <<"o", <<<<Key("_id"), I32(id)>>>>>>
U(op, k, v) == <<"o", <<<<Key(op), <<"o", <<<<Key(k), I32(v)>>>>>>>>>>>>
Upd(id, u) == [op |-> "update_one", c |-> "t", q |-> Q(id), u |-> u]
Ins(id, v) == [op |-> "insert_one", c |-> "t", doc |-> D(id, "a", v)]
Del(id) == [op |-> "delete_one", c |-> "t", q |-> Q(id)]
All == [op |-> "find", c |-> "t", q |-> <<"o", <<>>>>]
MkIdx == [op |-> "create_index", c |-> "t", keys |-> <<"o", <<<<Key("a"), I32(1)>>>>>>, unique |-> 1]
RmIdx == [op |-> "drop_index", c |-> "t", name |-> <<97, 95, 49>>]
Drop == [op |-> "drop", c |-> "t"]

Calls ==
  CASE Theme = "counter" -> {Upd(1, U("$inc", "a", 1)), Upd(2, U("$inc", "a", 10)), All}
    [] Theme = "docs" -> {Ins(3, 3), Del(1), Upd(1, U("$set", "a", 7)), All}
    [] Theme = "unique" -> {Ins(3, 7), Upd(1, U("$set", "a", 7)), Del(2), All}
    [] Theme = "meta" -> {Ins(3, 1), MkIdx, RmIdx, Drop, All}
    [] Theme = "cursor" -> {Ins(3, 3), Del(2), Upd(1, U("$set", "a", 7))}

Load == [docs |-> {D(1, "a", 0), D(2, "a", 5)}, idx |-> <<>>]
Setup == <<[op |-> "insert_many", c |-> "t", s |-> 0, docs |-> <<D(1, "a", 0), D(2, "a", 5)>>]>>
         \o (IF Theme = "unique" THEN <<[op |-> "create_index", c |-> "t", s |-> 0, keys |-> <<"o", <<<<Key("a"), I32(1)>>>>>>, unique |-> 1]>> ELSE <<>>)
First == CHOOSE x \in {out.db : out \in Outs("t" :> Load, MkIdx, <<>>)} : TRUE

MCInit ==
  /\ db = IF Theme = "unique" THEN First ELSE "t" :> Load
  /\ txns = <<>> /\ curs = <<>> /\ start = <<>> /\ did = <<>> /\ n = 0
  /\ hist = IF Record THEN Setup ELSE <<>>

With(e, s) == [x \in DOMAIN e \cup {"s"} |-> IF x = "s" THEN s ELSE e[x]]
Note(e) == hist' = (IF Record THEN Append(hist, e) ELSE <<>>)

(* did: the operations which changed something, of the open transactions and (0) those
   committed, in the order of the commits.  One which finds nothing to change is like a
   reading one: snapshots do not promise that it would still find nothing then.        *)
BeginS(s) ==
  /\ s \notin DOMAIN txns
  /\ s = 2 => 1 \in DOMAIN txns    \* they are interchangeable
  /\ Begin(s)
  /\ start' = (s :> db) @@ start /\ did' = (s :> <<>>) @@ did
  /\ Note([op |-> "begin", s |-> s])
InTxn(s, e) ==
  /\ txns[s].st = "open"
  /\ \/ \E out \in Outs(txns[s].view, e, <<>>) :
          Inside(s, e, out) /\ did' = IF out.w # {} THEN [did EXCEPT ![s] = Append(@, e)] ELSE did
     \/ /\ e.op \in WriteOps /\ Contended(s, e.c)
        /\ txns' = [txns EXCEPT ![s].tried = @ \cup {e.c}] /\ curs' = Upset(s) /\ UNCHANGED <<db, did>>
  /\ UNCHANGED start /\ Note(With(e, s))
Outside(e) ==
  /\ \/ \E out \in Outs(db, e, <<>>) : Direct(e, out) /\ did' = IF out.w # {} THEN (0 :> Append(IF 0 \in DOMAIN did THEN did[0] ELSE <<>>, e)) @@ did ELSE did
     \/ e.op \in WriteOps /\ Contended(0, e.c) /\ Nothing /\ UNCHANGED did
  /\ UNCHANGED start /\ Note(With(e, 0))
Ok0 == IF 0 \in DOMAIN did THEN did[0] ELSE <<>>
CommitS(s) ==
  /\ txns[s].st = "open"
  /\ \/ Commit(s) /\ did' = [(0 :> (Ok0 \o did[s])) @@ did EXCEPT ![s] = <<>>]
     \/ CommitFails(s) /\ UNCHANGED did
  /\ UNCHANGED start /\ Note([op |-> "commit", s |-> s])
RollbackS(s) ==
  /\ txns[s].st = "open" /\ Rollback(s) /\ UNCHANGED <<start, did>> /\ Note([op |-> "rollback", s |-> s])

(* cursors: a row is any document that was ever in the collection *)
CurE == [op |-> "cur_open", c |-> "t", q |-> <<"o", <<>>>>, cur |-> 1]
Rows == {D(1, "a", 0), D(2, "a", 5), D(3, "a", 3), D(1, "a", 7)}
Cur ==
  /\ Theme = "cursor"
  /\ UNCHANGED <<start, did>>
  /\ \/ \E s \in {0, 1} : /\ 1 \notin DOMAIN curs /\ (s # 0 => s \in DOMAIN txns /\ txns[s].st = "open")
                          /\ CurOpen(s, CurE) /\ Note(With(CurE, s))
     \/ 1 \in DOMAIN curs /\ \E r \in Rows : CurRow(1, r) /\ Note([op |-> "cur_next", cur |-> 1])
     \/ 1 \in DOMAIN curs /\ (CurEnd(1) \/ CurFails(1)) /\ Note([op |-> "cur_next", cur |-> 1])

MCNext ==
  /\ n < MaxSteps /\ n' = n + 1
  /\ \/ \E s \in {1, 2} : BeginS(s)
     \/ \E s \in DOMAIN txns : CommitS(s) \/ RollbackS(s) \/ (\E e \in Calls : InTxn(s, e))
     \/ \E e \in Calls : Outside(e)
     \/ Cur
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
(* serial execution of calls: what an account without interleavings comes to *)
RECURSIVE Serial(_, _)
Serial(d, es) ==
  IF es = <<>> THEN {d}
  ELSE UNION {Serial(out.db, Tail(es)) : out \in {x \in Outs(d, Head(es), <<>>) : x.k = "ok"}}
InitDb == IF Theme = "unique" THEN First ELSE "t" :> Load

(* No lost update, atomicity: the committed database is what the committed
   operations come to, those of a transaction taking effect at its commit.    *)
CommittedIsSerial == db \in Serial(InitDb, Ok0)
(* Snapshots and own writes: a transaction sees the database as it was when it
   began, with its own operations applied.                                    *)
ViewIsOwn == \A s \in DOMAIN txns : txns[s].st = "open" => txns[s].view \in Serial(start[s], did[s])
(* a cursor shows every document once *)
CursorOnce == \A x \in DOMAIN curs : LET g == curs[x].got IN
  ~curs[x].fuzzy => Cardinality({Id(g[i]) : i \in 1..Len(g)}) = Len(g)
(* ending in any other way than a commit changes nothing *)
OnlyCommits == [][\A s \in DOMAIN txns : (s \in DOMAIN txns' /\ txns[s].st = "open" /\ txns'[s].st \notin {"open", "done"}) => db' = db]_mcvars

Inv == UniqueIds /\ UniqueValues /\ IndexesHold /\ KeysHold
\* the interesting histories have a transaction from the beginning, and they all end
FirstBegin == Record => (hist # Setup => hist[Len(Setup) + 1].op = "begin")
Closed == \A s \in DOMAIN txns : txns[s].st # "open"
PrintHist == (n = MaxSteps /\ Closed /\ DOMAIN txns # {}) => PrintT("HIST " \o ToJson(hist))

-----------------------------------------------------------------------------
(* Flaws, put in place of the definitions of PoloDB.tla to see that the
   properties above notice them.                                              *)
NoConflict(w, dirty) == FALSE
WholeView(base, view, w) == IF w = {} THEN base ELSE view
HastyCommit(s) == txns[s].st = "open" /\ ~Conflict(txns[s].w, txns[s].dirty)
=============================================================================
