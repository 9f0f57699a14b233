----------------------------- MODULE TraceFeatReg -----------------------------
EXTENDS TraceBase, FeatReg
vars == <<l, fid, won, asks, tab, gone, closing, was>>
Init == l = 1 /\ FInit
Next ==
    \/ Is("Case") /\ Step /\ FReset
    \/ Is("RegInv") /\ Step /\ RegInv(ev.t, ev.c)
    \/ Is("RegRet") /\ Step /\ RegRet(ev.t, ev.ok, ev.id)
    \/ Is("EnableInv") /\ Step /\ EnableInv(ev.t, ev.c)
    \/ Is("EnableRet") /\ Step /\ EnableRet(ev.t, ev.c, ev.i, ev.ok)
    \/ Is("Lookup") /\ Step /\ Lookup(ev.t, ev.c, ev.i)
    \/ Is("Gone") /\ Step /\ Destroyed(ev.i)
    \/ Is("TlGoes") /\ Step /\ TimelineGoes(ev.t)
    \/ Is("TlGone") /\ Step /\ TimelineGone(ev.t)
    \/ Is("Quiet") /\ Step /\ Settled /\ UNCHANGED fvars
    \/ Is("End") /\ Step /\ tab = << >> /\ ev.made = Cardinality(gone) /\ ev.blocks = 0 /\ UNCHANGED fvars
Spec == Init /\ [][Next]_vars
=============================================================================
