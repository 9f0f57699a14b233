------------------------------- MODULE TraceNet -------------------------------
EXTENDS TraceBase, NetStream
VARIABLES up,      \* the server is listening
          was      \* it was listening when the current start was called
vars == <<l, sent, closed, cur, pos, broken, stops, up, was>>
Init == l = 1 /\ NInit /\ up = FALSE /\ was = FALSE
Same == UNCHANGED <<up, was>>
Next ==
    \/ Is("Case") /\ Step /\ NReset /\ up' = FALSE /\ was' = FALSE
    \/ Is("Listen") /\ Step /\ up' = TRUE /\ UNCHANGED nvars /\ UNCHANGED was
    \/ Is("Start") /\ Step /\ was' = up /\ UNCHANGED nvars /\ UNCHANGED up
    \/ Is("Started") /\ Step /\ (was => ev.ok) /\ (ev.ok => up) /\ (IF ev.ok THEN Started ELSE UNCHANGED nvars) /\ Same
    \/ Is("Send") /\ Step /\ Send(ev.k, ev.b) /\ Same
    \/ Is("Close") /\ Step /\ Close(ev.k) /\ Same
    \/ Is("Got") /\ Step /\ ReadGot(ev.b) /\ Len(ev.b) = ev.n /\ Same
    \/ Is("NoMore") /\ Step /\ ReadEnd(ev.n) /\ Same
    \/ Is("Stop") /\ Step /\ StopCalled /\ Same
    \/ Is("Stopped") /\ Step /\ UNCHANGED nvars /\ Same
    \* everything destroyed: no connection stays open, no memory is kept
    \/ Is("End") /\ Step /\ ev.socks = 0 /\ UNCHANGED nvars /\ Same
Spec == Init /\ [][Next]_vars
=============================================================================
