----------------------------- MODULE TracePoints ------------------------------
EXTENDS TraceBase, Points
vars == <<l, open, due, used, known, shared>>
Init == l = 1 /\ PInit
Next ==
    \/ Is("Case") /\ Step /\ open' = << >> /\ due' = << >> /\ used' = << >> /\ known' = << >> /\ shared' = ev.shared
    \/ Is("Born") /\ Step /\ Born(ev.t)
    \/ Is("Enter") /\ Step /\ ev.t \in DOMAIN open /\ Enter(ev.t, ev.m, ev.lab)
    \/ Is("Leave") /\ Step /\ ev.t \in DOMAIN open /\ Leave(ev.t)
    \/ Is("Map") /\ Step /\ ev.t \in DOMAIN open /\ Announced(ev.t, ev.id, ev.text)
    \/ Is("Dlv") /\ Step /\ ev.t \in DOMAIN open /\ Delivered(ev.t, ev.m, ev.x)
    \/ Is("Gone") /\ Step /\ Gone(ev.t)
Spec == Init /\ [][Next]_vars
=============================================================================
