------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications.  A trace is a file of JSON lines *)
(* recorded from the real code; the trace specification walks it with l and  *)
(* every line must be explained by an action.  Several cases follow each     *)
(* other in one file, each opened by a "Case" line that resets the state.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

ev == Trace[l]
More == l <= Len(Trace)
Is(name) == More /\ Trace[l].e = name
Step == l' = l + 1
Has(r, f) == f \in DOMAIN r

ASSUME TLCSet(1, 0)
\* remembers how far the walk came (run with -workers 1)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
TraceAccepted ==
    IF TLCGet(1) = Len(Trace) + 1 THEN TRUE
    ELSE PrintT(<<"REJECTED-AT", TLCGet(1)>>) /\ FALSE
=============================================================================
