----------------------------- MODULE TraceGroups -----------------------------
EXTENDS TraceBase, Groups
VARIABLE ids        \* timeline -> identifiers of the events pushed to it
vars == <<l, tls, lst, pos, down, ids>>
Init == l = 1 /\ GInit /\ ids = << >>
Case == Is("Case") /\ Step /\ tls' = << >> /\ lst' = << >> /\ pos' = << >> /\ down' = 0 /\ ids' = << >>
Same == UNCHANGED ids
Ids(t) == IF t \in DOMAIN ids THEN ids[t] ELSE << >>
Inv == Is("Inv") /\ Step /\
    CASE ev.op = "create" -> InvCreate(ev.tl, ev.name) /\ Same
      [] ev.op = "reg" -> InvReg(ev.l, ev.tl) /\ Same
      [] ev.op = "push" -> InvPush(ev.tl) /\ ids' = Put(ids, ev.tl, Append(Ids(ev.tl), ev.id))
      [] ev.op = "flush" -> InvFlush(ev.tl) /\ Same
      [] ev.op = "destroy" -> InvDestroy(ev.tl) /\ Same
      [] ev.op = "deinit" -> InvDeinit /\ Same
Ret == Is("Ret") /\ Step /\ Same /\
    CASE ev.op = "create" -> ev.ok /\ RetCreate(ev.tl)
      [] ev.op = "reg" -> ev.ok /\ RetReg(ev.l)
      [] ev.op = "push" -> RetPush(ev.tl)
      [] ev.op = "flush" -> RetFlush(ev.tl)
      [] ev.op = "destroy" -> RetDestroy(ev.tl)
      [] ev.op = "deinit" -> RetDeinit
Dlv == /\ Is("Dlv") /\ Step /\ Same
       /\ LET k == Len(ev.evs)  p == At(ev.l, ev.tl) IN
            /\ p + k <= Len(Ids(ev.tl)) /\ SubSeq(Ids(ev.tl), p + 1, p + k) = ev.evs
            /\ Deliver(ev.l, ev.tl, k)
Gone == Is("LGone") /\ Step /\ Same /\ LGone(ev.l)
\* nobody is left behind
End == /\ Is("End") /\ Step /\ \A t \in DOMAIN tls : tls[t].st \in {"dead", "idle"}
       /\ ((\A t \in DOMAIN tls : tls[t].st = "dead") /\ down = 2 => ev.blocks = 0)
       /\ UNCHANGED <<tls, lst, pos, down, ids>>
Next == Case \/ Inv \/ Ret \/ Dlv \/ Gone \/ End
Spec == Init /\ [][Next]_vars
Props == GSane /\ AllOver
=============================================================================
