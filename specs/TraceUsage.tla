------------------------------ MODULE TraceUsage ------------------------------
EXTENDS TraceBase, Usage
vars == <<l, proc, now, cpu>>
Init == l = 1 /\ UInit
Next ==
    \/ Is("Case") /\ Step /\ UReset
    \/ Is("Sys") /\ Step /\ ev.hz = Hz /\ UNCHANGED uvars
    \/ Is("Live") /\ Step /\ Live(ev.p, [lo |-> ev.lo, hi |-> ev.hi, virt |-> ev.virt, shr |-> ev.shr, res |-> ev.res])
    \/ Is("Dead") /\ Step /\ Dead(ev.p)
    \/ Is("Clock") /\ Step /\ Clock(ev.t)
    \/ Is("Open") /\ Step /\ OpenCpu(ev.c, ev.p)
    \/ Is("Close") /\ Step /\ CloseCpu(ev.c)
    \* -7: far beyond what the other numbers of a case can give, except after a start that could not be read
    \/ Is("Cpu") /\ Step /\ Probe(ev.c, ev.ok, IF ev.v = -7 /\ ~cpu[ev.c].known THEN 0 ELSE ev.v)
    \/ Is("Mem") /\ Step /\ Memory(ev.p, ev.ok, ev.virt, ev.shr, ev.res)
    \/ Is("SelfMem") /\ Step /\ ev.ok /\ UNCHANGED uvars       \* the own process, close to what it holds a moment later
    \/ Is("NullCtx") /\ Step /\ ~ev.ok /\ UNCHANGED uvars
    \/ Is("NoMem") /\ Step /\ ev.null /\ UNCHANGED uvars
    \/ Is("Blind") /\ Step /\ UNCHANGED uvars                  \* made-up processes cannot be shown to this code
    \/ Is("End") /\ Step /\ ev.blocks = 0 /\ UNCHANGED uvars
Spec == Init /\ [][Next]_vars
===============================================================================
