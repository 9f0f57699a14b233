----------------------------- MODULE TraceReader -----------------------------
EXTENDS TraceBase, Reader
VARIABLES
    asked,      \* queries under way: thread -> must be answered with yes
    waited      \* a wait has returned: end of stream is known from then on
vars == <<l, n, fin, got, started, sinv, sret, waited, asked>>
Init == l = 1 /\ RInit({}, 0) /\ waited = FALSE /\ asked = << >>
Next ==
    \/ Is("Case") /\ Step /\ n' = 0 /\ fin' = FALSE /\ got' = << >> /\ started' = FALSE /\ sinv' = FALSE /\ sret' = FALSE /\ waited' = FALSE /\ asked' = << >>
    \/ Is("Listen") /\ Step /\ ~started /\ got' = [x \in DOMAIN got \cup {ev.k} |-> 0] /\ UNCHANGED <<n, fin, started, sinv, sret, waited, asked>>
    \/ Is("Feed") /\ Step /\ Feed(ev.k) /\ UNCHANGED <<waited, asked>>
    \/ Is("Fin") /\ Step /\ Finish /\ UNCHANGED <<waited, asked>>
    \/ Is("Start") /\ Step /\ Start /\ UNCHANGED <<waited, asked>>
    \/ Is("Started") /\ Step /\ ev.ok /\ started /\ UNCHANGED <<rvars, waited, asked>>
    \/ Is("Call") /\ Step /\ Call(ev.k, ev.i) /\ UNCHANGED <<waited, asked>>
    \/ Is("Wait") /\ Step /\ UNCHANGED <<rvars, waited, asked>>
    \/ Is("Waited") /\ Step /\ WaitReturns /\ waited' = started /\ UNCHANGED asked
    \/ Is("Stop") /\ Step /\ StopCalled /\ UNCHANGED <<waited, asked>>
    \/ Is("Stopped") /\ Step /\ StopReturns /\ UNCHANGED <<waited, asked>>
    \/ Is("Eos") /\ Step /\ Eos(ev.v, asked[ev.t]) /\ UNCHANGED <<waited, asked>>
    \/ Is("Ask") /\ Step /\ asked' = [x \in DOMAIN asked \cup {ev.t} |-> IF x = ev.t THEN (waited \/ EosTrue) ELSE asked[x]] /\ UNCHANGED <<rvars, waited>>
    \/ Is("End") /\ Step /\ UNCHANGED <<rvars, waited, asked>>
Spec == Init /\ [][Next]_vars
=============================================================================
