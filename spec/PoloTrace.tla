------------------------------ MODULE PoloTrace ------------------------------
(* Is every recorded trace a behaviour of PoloDB?  The traces are independent:
   the initial state picks one.  A trace is accepted when its last event has
   been matched (TRACE_OK is printed); TLC finds all ways to match it.        *)
EXTENDS PoloDB, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
tvars == <<db, txns, curs, tid, l>>

Ev == Traces[tid].ev[l]

(* the identifiers the database may have chosen: those it reports, and for an
   upsert, which does not, those which later events show, up to the next dump *)
RowIds(rows) == {x \in {Id(rows[i]) : i \in {j \in 1..Len(rows) : HasField(rows[j], IdK)}} : x[1] = "oid"}
RECURSIVE Shown(_)
Shown(n) ==
  IF n > Len(Traces[tid].ev) THEN {}
  ELSE LET e == Traces[tid].ev[n] IN
       IF e.r.k # "ok" THEN Shown(n + 1)
       ELSE IF e.op = "dump" THEN UNION {RowIds(e.r.colls[i][2]) : i \in 1..Len(e.r.colls)}
       ELSE (IF e.op \in {"find", "find_one", "cur_next"} THEN RowIds(e.r.docs) ELSE {}) \cup Shown(n + 1)
NextIds == Shown(l + 1)
Cand(e) == IF e.op = "crash" THEN [i \in 1..8 |-> NextIds \cup {<<"oid", <<l, i>>>>}]
           ELSE IF Has_(e.r, "ids") THEN [i \in 1..Len(e.r.ids) |-> {e.r.ids[i]}]
           ELSE IF Get(e, "upsert", 0) = 1 /\ e.r.k = "ok" THEN <<NextIds \cup {<<"oid", <<l>>>>}>> ELSE <<>>

TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ Call(Ev, Ev.r, Cand(Ev))
  /\ l' = l + 1
  /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_tvars

Report ==
  /\ l > Len(Traces[tid].ev) => PrintT("TRACE_OK " \o ToString(Traces[tid].id))
  /\ IOEnv.PROGRESS = "1" => PrintT("TRACE_AT " \o ToString(Traces[tid].id) \o " " \o ToString(l))
Inv == UniqueIds /\ UniqueValues /\ IndexesHold /\ KeysHold
=============================================================================
