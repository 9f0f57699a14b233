---------------------------- MODULE TraceCallstack ----------------------------
EXTENDS TraceBase, Callstack
vars == <<l, stack, out, nstart, nout, ids>>
Init == l = 1 /\ KInit
Next ==
    \/ Is("Case") /\ Step /\ stack' = << >> /\ out' = << >> /\ nstart' = 0 /\ nout' = 0 /\ ids' = << >>
    \/ Is("Start") /\ Step /\ Start(ev.k, ev.lab, ev.rest, ev.at, ev.id)
    \/ Is("Stop") /\ Step /\ Stop(ev.at, ev.th)
    \/ Is("Dlv") /\ Step /\ Emitted(ev.k, ev.lab, ev.rest, ev.ts, ev.dur, ev.th, ev.id)
    \/ Is("Gone") /\ Step /\ out = << >> /\ stack' = << >> /\ out' = << >> /\ nstart' = 0 /\ nout' = 0 /\ ids' = << >>       \* the timeline is destroyed
    \/ Is("Flushed") /\ Step /\ Flushed
Spec == Init /\ [][Next]_vars
Props == Balanced /\ Nested
=============================================================================
