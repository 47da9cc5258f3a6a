----------------------------- MODULE ServerTrace -----------------------------
(* Is every recorded conversation with the server a behaviour of Server.tla? *)
EXTENDS Server, Wire, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
tvars == <<db, txns, curs, sess, pc, tid, l>>

Ev == Traces[tid].ev[l]
(* identifiers the database may have chosen: one that is seen later (see
   py/wire.py), or one that is never seen                                     *)
Cand ==
  IF ~Has_(Ev, "oc") THEN <<>>
  ELSE [i \in 1..8 |-> {Ev.oc[k] : k \in 1..Len(Ev.oc)} \cup {<<"oid", <<l, pc.i, i>>>>}]

(* b: the bytes that were sent instead of the message of the command, b0 *)
Fate == IF Has_(Ev, "b") THEN Judge(Ev.b, Ev.b0) ELSE "good"
Unanswered == [k |-> "none", form |-> 1]
Act(fate) ==
  LET refused == /\ pc.ph = "start"
                 /\ Ev.r.k = "closed" \/ (Ev.r.k = "err" /\ Ev.r.form = 1)
                 /\ Done /\ Same /\ UNCHANGED sess
      silent == /\ Ev.r.k = "closed"
                /\ IF Ev.op \in {"find", "aggregate", "getmore", "ping"}
                   THEN Done /\ Same /\ UNCHANGED sess
                   ELSE Step(Ev, Unanswered, Cand, l)
  IN  CASE Ev.op = "flood" -> Ev.r.k = "ok" /\ Done /\ Same /\ UNCHANGED sess
        [] fate = "bad" -> refused
        [] fate = "more" -> silent
        [] fate = "either-more" -> refused \/ silent
        [] fate = "either" -> refused \/ Step(Ev, Ev.r, Cand, l)
        [] OTHER -> Step(Ev, Ev.r, Cand, l)

TInit == SInit /\ tid \in 1..Len(Traces) /\ l = 1
TNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ UNCHANGED tid
  /\ IF pc.ph = "done"
     THEN l' = l + 1 /\ pc' = Idle /\ UNCHANGED <<db, txns, curs, sess>>
     ELSE \E fate \in {Fate} :
          IF fate = "unsure"
          THEN \* what follows can not be judged, but that the server goes on
               /\ \A k \in l..Len(Traces[tid].ev) : Traces[tid].ev[k].r.k # "dead"
               /\ Traces[tid].ev[Len(Traces[tid].ev)].r.k = "ok"
               /\ l' = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<db, txns, curs, sess, pc>>
               /\ PrintT("TRACE_UNSURE " \o ToString(Traces[tid].id))
          ELSE Act(fate) /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_tvars

Report ==
  /\ l > Len(Traces[tid].ev) => PrintT("TRACE_OK " \o ToString(Traces[tid].id))
  /\ IOEnv.PROGRESS = "1" => PrintT("TRACE_AT " \o ToString(Traces[tid].id) \o " " \o ToString(l))
Inv == UniqueIds /\ UniqueValues /\ IndexesHold /\ KeysHold
=============================================================================
