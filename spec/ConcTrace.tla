------------------------------ MODULE ConcTrace ------------------------------
(* Is there an order of the calls of several threads, compatible with the order
   in which calls returned before others began, which the sequential
   specification allows?  TLC searches for all of them.

   A trace: setup and fin are executed alone, before and after the threads; th
   holds the calls of each thread with the positions of call and return.       *)
EXTENDS PoloDB, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, pos     \* l: setup, then fin; pos: the next call of each thread
tvars == <<db, txns, curs, tid, l, pos>>

T == Traces[tid]
Threads == 1..Len(T.th)
AllDone == \A t \in Threads : pos[t] > Len(T.th[t])
Cand(e) == IF Has_(e.r, "ids") THEN [i \in 1..Len(e.r.ids) |-> {e.r.ids[i]}] ELSE <<>>

(* e may take effect now: no other pending call returned before e was called *)
MayGo(t) ==
  LET e == T.th[t][pos[t]] IN
  \A u \in Threads \ {t} : pos[u] <= Len(T.th[u]) => T.th[u][pos[u]].ret > e.call

TInit == /\ Init
         /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ pos = [t \in 1..Len(Traces[tid].th) |-> 1]
Alone(e) == Call(e, e.r, Cand(e)) /\ l' = l + 1 /\ UNCHANGED pos
TNext ==
  /\ UNCHANGED tid
  /\ \/ l <= Len(T.setup) /\ Alone(T.setup[l])
     \/ /\ l = Len(T.setup) + 1
        /\ \E t \in Threads :
             /\ pos[t] <= Len(T.th[t])
             /\ MayGo(t)
             /\ LET e == T.th[t][pos[t]] IN Call(e, e.r, Cand(e))
             /\ pos' = [pos EXCEPT ![t] = @ + 1]
             /\ UNCHANGED l
     \/ /\ l > Len(T.setup) /\ AllDone
        /\ l - Len(T.setup) <= Len(T.fin)
        /\ Alone(T.fin[l - Len(T.setup)])
TSpec == TInit /\ [][TNext]_tvars

RECURSIVE Total(_, _)
Total(p, t) == IF t > Len(p) THEN 0 ELSE p[t] - 1 + Total(p, t + 1)
Report ==
  /\ l > Len(T.setup) + Len(T.fin) => PrintT("TRACE_OK " \o ToString(T.id))
  /\ IOEnv.PROGRESS = "1" => PrintT("TRACE_AT " \o ToString(T.id) \o " " \o ToString(l + Total(pos, 1)))
Inv == UniqueIds /\ UniqueValues /\ IndexesHold /\ KeysHold
=============================================================================
