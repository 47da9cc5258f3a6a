---------------------------- MODULE LineDiffTrace ----------------------------
(* Scripts computed by the implementation: TRACE_OK is printed for the correct ones. *)
EXTENDS LineDiff, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE tid
TInit == /\ tid \in 1..Len(Traces)
         /\ a = Traces[tid].a /\ b = Traces[tid].b /\ hunks = Traces[tid].hunks
         /\ i = 0 /\ j = 0 /\ cost = 0
TSpec == TInit /\ [][Next /\ UNCHANGED tid]_<<vars, tid>>
Report == /\ Done => (cost = Distance(a, b) => PrintT("TRACE_OK " \o ToString(Traces[tid].id)))
          /\ IOEnv.PROGRESS = "1" => PrintT("TRACE_AT " \o ToString(Traces[tid].id) \o " " \o ToString(i))
=============================================================================
