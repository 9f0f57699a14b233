------------------------------ MODULE TraceAmalg ------------------------------
EXTENDS TraceBase, Amalg
vars == <<l, runs, lying>>
Init == l = 1 /\ DInit
Next ==
    \/ Is("Case") /\ Step /\ runs' = << >> /\ lying' = {}
    \/ Is("Start") /\ Step /\ Start(ev.k, ev.cpp)
    \/ Is("End") /\ Step /\ End(ev.k, ev.rc)
    \/ Is("Kill") /\ Step /\ Kill(ev.k)
    \/ Is("State") /\ Step /\ See(ev)
    \/ Is("Fin") /\ Step /\ (\A k \in DOMAIN runs : runs[k].st # "on") /\ Due \subseteq lying /\ UNCHANGED dvars
Spec == Init /\ [][Next]_vars
=============================================================================
