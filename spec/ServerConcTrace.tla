--------------------------- MODULE ServerConcTrace ---------------------------
(* Commands of several connections at the same time: is there an order of their
   steps (see Server.tla), compatible with the order in which replies arrived
   before other commands were sent, which the specification allows?

   A trace: setup and fin are sent one by one, before and after the threads; th
   holds the commands of each connection with the positions of sending and of
   the reply.  A session is used by one connection at a time.

   turn: the thread whose command is being carried out; 0: none; -1: setup, fin.
   pcs:  where the commands of the other threads stand.
   over: cursors that have ended -> the position of the reply that said so.    *)
EXTENDS Server, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, pos, turn, pcs, over
tvars == <<db, txns, curs, sess, pc, tid, l, pos, turn, pcs, over>>

T == Traces[tid]
Threads == 1..Len(T.th)
AllDone == \A t \in Threads : pos[t] > Len(T.th[t])
Cmd(t) == T.th[t][pos[t]]
Mine == IF turn > 0 THEN Cmd(turn) ELSE IF l <= Len(T.setup) THEN T.setup[l] ELSE T.fin[l - Len(T.setup)]

(* no command of another thread was answered before this one was sent *)
MayGo(t) == \A u \in Threads \ {t} : pos[u] <= Len(T.th[u]) => Cmd(u).ret > Cmd(t).call

TInit == /\ SInit
         /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ turn = IF Len(Traces[tid].setup) > 0 THEN -1 ELSE 0
         /\ pos = [t \in 1..Len(Traces[tid].th) |-> 1]
         /\ pcs = [t \in 1..Len(Traces[tid].th) |-> Idle]
         /\ over = <<>>

Alone ==
  /\ turn = -1
  /\ l <= Len(T.setup) + Len(T.fin)
  /\ UNCHANGED <<tid, pos, pcs, over>>
  /\ IF pc.ph = "done"
     THEN l' = l + 1 /\ pc' = Idle /\ turn' = (IF l = Len(T.setup) THEN 0 ELSE -1) /\ UNCHANGED <<db, txns, curs, sess>>
     ELSE Step(Mine, Mine.r, <<>>, l) /\ UNCHANGED <<l, turn>>

Choose ==
  /\ turn = 0
  /\ UNCHANGED <<db, txns, curs, sess, tid, l, pos, over>>
  /\ IF AllDone THEN turn' = -1 /\ pc' = Idle /\ UNCHANGED pcs
     ELSE \E t \in Threads :
            /\ pos[t] <= Len(T.th[t])
            /\ MayGo(t)
            /\ turn' = t /\ pc' = pcs[t] /\ pcs' = [pcs EXCEPT ![t] = Idle]

(* others may come between the steps of a command *)
Yields(e, p) ==
  /\ p.ph \in {"stmt", "open", "other"}
  /\ Get(e, "start", 0) = 1 \/ (e.op \in Statements /\ StmtCount(e) > 1 /\ p.i > 0)

(* the cursor ended in a command that was answered at the same time *)
Late(e, r) ==
  /\ pc.ph = "open" /\ e.op = "getmore"
  /\ e.id \notin DOMAIN curs /\ e.id \in DOMAIN over /\ e.call < over[e.id]
  /\ r.k = "ok" /\ r.docs = <<>> /\ r.id = "0" /\ r.ns = NsOf(e)
  /\ Done /\ Same /\ UNCHANGED sess

Work ==
  /\ turn > 0
  /\ UNCHANGED <<tid, l>>
  /\ IF pc.ph = "done"
     THEN pos' = [pos EXCEPT ![turn] = @ + 1] /\ turn' = 0 /\ pc' = Idle /\ UNCHANGED <<db, txns, curs, sess, pcs, over>>
     ELSE LET e == Mine IN
          /\ Step(e, e.r, <<>>, 1000 * turn + pos[turn]) \/ (e.r.form = 1 /\ Late(e, e.r))
          /\ over' = IF e.op = "getmore" /\ pc.ph = "rows" /\ pc'.ph = "done" /\ e.r.k = "ok" /\ e.r.id = "0"
                     THEN (e.id :> e.ret) @@ over ELSE over
          /\ IF Yields(e, pc') THEN turn' = 0 /\ pcs' = [pcs EXCEPT ![turn] = pc'] ELSE UNCHANGED <<turn, pcs>>
          /\ UNCHANGED pos

TNext == Alone \/ Choose \/ Work
TSpec == TInit /\ [][TNext]_tvars
Vw == <<db, txns, curs, sess, tid, l, pos, turn, pcs, over, IF turn = 0 THEN Idle ELSE pc>>

RECURSIVE Total(_, _)
Total(p, t) == IF t > Len(p) THEN 0 ELSE p[t] - 1 + Total(p, t + 1)
Report ==
  /\ l > Len(T.setup) + Len(T.fin) => PrintT("TRACE_OK " \o ToString(T.id))
  /\ IOEnv.PROGRESS = "1" => PrintT("TRACE_AT " \o ToString(T.id) \o " " \o ToString(l + Total(pos, 1)))
Inv == UniqueIds /\ UniqueValues /\ IndexesHold /\ KeysHold
=============================================================================
