------------------------------ MODULE TraceDebug ------------------------------
(* What the debugging listener printed for the events it was given.          *)
EXTENDS TraceBase, DebugText
vars == <<l>>
Init == l = 1
Case == Is("Case") /\ Step
Debug == /\ Is("Debug") /\ Step
         /\ (\A j \in 1..Len(ev.evs) : Printed(ev.evs[j].out, ev.evs[j].kn, ev.evs[j].f)) = TRUE
         /\ Statistics(ev.stats, [j \in 1..Len(ev.evs) |-> ev.evs[j].kn]) = TRUE
Next == Case \/ Debug
Spec == Init /\ [][Next]_vars
=============================================================================
