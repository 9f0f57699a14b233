------------------------------- MODULE IdsImpl -------------------------------
(* The counter behind the identifiers: an atomic fetch-and-add, or (Atomic = *)
(* FALSE) a read followed by a write.                                        *)
EXTENDS Ids
CONSTANTS P, Calls, Atomic
VARIABLES pc, cnt, loc, done
iv0 == <<given, open, tid, many, pc, cnt, loc, done>>
IInit == IdInit /\ pc = [p \in P |-> "out"] /\ cnt = 0 /\ loc = [p \in P |-> 0] /\ done = [p \in P |-> 0]
Enter(p) == pc[p] = "out" /\ done[p] < Calls /\ InvNext(p, 1) /\ pc' = [pc EXCEPT ![p] = "in"] /\ UNCHANGED <<cnt, loc, done>>
Add(p) == /\ pc[p] = "in" /\ loc' = [loc EXCEPT ![p] = cnt]
          /\ IF Atomic THEN cnt' = cnt + 1 /\ pc' = [pc EXCEPT ![p] = "got"] ELSE cnt' = cnt /\ pc' = [pc EXCEPT ![p] = "read"]
          /\ UNCHANGED <<given, open, tid, many, done>>
Store(p) == pc[p] = "read" /\ cnt' = loc[p] + 1 /\ pc' = [pc EXCEPT ![p] = "got"] /\ UNCHANGED <<given, open, tid, many, loc, done>>
\* the call returns what it took: always possible?
Leave(p) == pc[p] = "got" /\ RetNext(p, loc[p]) /\ pc' = [pc EXCEPT ![p] = "out"] /\ done' = [done EXCEPT ![p] = @ + 1] /\ UNCHANGED <<cnt, loc>>
INext == \E p \in P : Enter(p) \/ Add(p) \/ Store(p) \/ Leave(p)
ISpec == IInit /\ [][INext]_iv0
Allowed == \A p \in P : pc[p] = "got" => loc[p] \notin Of(1) /\ loc[p] > open[p].floor
=============================================================================
