----------------------------- MODULE TraceLabels -----------------------------
EXTENDS TraceBase, Labels
vars == <<l, text, id, seen, opening, maps, lo, hi>>
Init == l = 1 /\ LInit
Next ==
    \/ Is("Case") /\ Step /\ text' = << >> /\ id' = << >> /\ seen' = << >> /\ opening' = << >> /\ maps' = << >> /\ lo' = << >> /\ hi' = << >> /\ uses' = << >>
    \/ Is("InvAdd") /\ Step /\ InvAdd(ev.k, ev.text)
    \/ Is("RetAdd") /\ Step /\ RetAdd(ev.k, ev.id)
    \/ Is("InvMap") /\ Step /\ InvMap(ev.c)
    \/ Is("RetMap") /\ Step /\ RetMap(ev.c)
    \/ Is("Map") /\ Step /\ Announced(ev.id, ev.text)
    \/ Is("Use") /\ Step /\ Used(ev.id)
    \/ Is("Settled") /\ Step /\ Settled
Spec == Init /\ [][Next]_vars
Props == Distinct
=============================================================================
