------------------------------ MODULE TraceSched ------------------------------
EXTENDS TraceBase, Sched
VARIABLE start      \* the clock when the current run began
vars == <<l, live, ids, ticking, must, ran, running, start>>
Init == l = 1 /\ SchInit /\ start = 0
Next ==
    \/ Is("Case") /\ Step /\ SchReset /\ start' = 0
    \/ Is("Sched") /\ Step /\ Schedule(ev.id, ev.mode, ev.p, ev.t0, ev.t1) /\ UNCHANGED start
    \/ Is("NoSched") /\ Step /\ ~ev.cb /\ UNCHANGED scvars /\ UNCHANGED start     \* refused: only without a callback
    \/ Is("Remove") /\ Step /\ RemoveTask(ev.id, ev.ok) /\ UNCHANGED start
    \/ Is("Tick") /\ Step /\ TickBegin(ev.t) /\ UNCHANGED start
    \/ Is("Run") /\ Step /\ RunTask(ev.id, ev.t) /\ start' = ev.t
    \/ Is("Ran") /\ Step /\ RunEnds(ev.id, ev.again, start, ev.t) /\ UNCHANGED start
    \/ Is("Ticked") /\ Step /\ TickEnd /\ UNCHANGED start
    \/ Is("Best") /\ Step /\ ev.v = Optimal /\ UNCHANGED scvars /\ UNCHANGED start
    \* identifiers lo .. hi were handed out one after the other, and all but the last three removed at once
    \/ Is("Bulk") /\ Step /\ ev.gone /\ (\A x \in ids : x < ev.lo \/ x > ev.hi) /\ ids' = ids \cup (ev.lo .. ev.hi)
       /\ live' = [x \in DOMAIN live \cup ev.hi - 2 .. ev.hi |-> IF x \in DOMAIN live THEN live[x] ELSE [period |-> 1000, mode |-> "restart", lo |-> 0, hi |-> 2000000000]]
       /\ UNCHANGED <<ticking, must, ran, running, start>>
    \* destroyed: every block is back
    \/ Is("End") /\ Step /\ ev.blocks = 0 /\ UNCHANGED scvars /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
=============================================================================
