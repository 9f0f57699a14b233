------------------------------- MODULE TraceIds -------------------------------
EXTENDS TraceBase, Ids
vars == <<l, given, open, tid, many>>
Init == l = 1 /\ IdInit
Next ==
    \/ Is("Case") /\ Step /\ given' = << >> /\ open' = << >> /\ tid' = << >> /\ many' = {}
    \/ Is("Inv") /\ Step /\ InvNext(ev.c, ev.p)
    \/ Is("Ret") /\ Step /\ RetNext(ev.c, ev.id)
    \/ Is("Tid") /\ Step /\ Thread(ev.t, ev.id)
    \/ Is("Tids") /\ Step /\ ev.same /\ Crowd(ev.n, ev.iv)
    \* many identifiers used up before the threads begin: growing, so that the last one stands for all
    \/ Is("Used") /\ Step /\ ev.grow /\ ev.last > Top(Of(ev.p)) /\ given' = Put(given, ev.p, Of(ev.p) \cup {ev.last}) /\ UNCHANGED <<open, tid, many>>
    \/ Is("End") /\ Step /\ DOMAIN open = {} /\ UNCHANGED <<given, open, tid, many>>
Spec == Init /\ [][Next]_vars
=============================================================================
