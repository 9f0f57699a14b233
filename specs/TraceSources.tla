----------------------------- MODULE TraceSources -----------------------------
EXTENDS TraceBase, Sources
vars == <<l, file, pos, open>>
Init == l = 1 /\ SInit
Next ==
    \/ Is("Case") /\ Step /\ file' = << >> /\ pos' = 0 /\ open' = FALSE
    \/ Is("File") /\ Step /\ file' = ev.b /\ pos' = 0 /\ open' = FALSE
    \/ Is("Start") /\ Step /\ ev.ok = ev.exists /\ Begin(ev.exists)
    \/ Is("Stop") /\ Step /\ End
    \/ Is("Got") /\ Step /\ Got(ev.n, ev.b)
    \/ Is("NoMore") /\ Step /\ NoMore(ev.n)
    \/ Is("Made") /\ Step /\ Resolves(ev.d, ev.what, ev.r) = TRUE /\ UNCHANGED svars
Spec == Init /\ [][Next]_vars
=============================================================================
