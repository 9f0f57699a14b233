----------------------------- MODULE MC_Callstack -----------------------------
EXTENDS Callstack
CONSTANTS MaxStarts, MaxTime
VARIABLE now
MInit == KInit /\ now = 0
At(t) == <<t \div 3, (t % 3) * 333333333>>          \* crosses second boundaries
MNext ==
    \/ now < MaxTime /\ now' = now + 1 /\ UNCHANGED kvars
    \/ \E k \in {"a", "b"} : nstart < MaxStarts /\ Start(k, nstart, "", At(now), -1) /\ UNCHANGED now
    \/ Stop(At(now), 1) /\ UNCHANGED now
    \/ out # << >> /\ LET e == Head(out) IN Emitted(e.k, e.lab, e.rest, e.ts, e.dur, e.thread, e.n) /\ UNCHANGED now
MSpec == MInit /\ [][MNext]_<<stack, out, nstart, nout, ids, now>>
Plus(a, b) == IF a[2] + b[2] >= Giga THEN <<a[1] + b[1] + 1, a[2] + b[2] - Giga>> ELSE <<a[1] + b[1], a[2] + b[2]>>
\* an event's scope ends no later than now, and contains the scopes opened inside it
Durations == \A i \in 1..Len(out) : /\ out[i].dur[1] >= 0 /\ out[i].dur[2] \in 0..(Giga - 1)
                                    /\ Leq(Plus(out[i].ts, out[i].dur), At(now))
Labels == \A i \in 1..Len(out) : out[i].lab + 1 = out[i].n
=============================================================================
