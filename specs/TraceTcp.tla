------------------------------ MODULE TraceTcp -------------------------------
(* Recorded histories of the real TCP listener on the virtual network.       *)
EXTENDS TraceBase, TcpListen, Meta
VARIABLES kl, stops
vars == <<l, kl, stops, given, taken, before, must, stopping, stopped, may, hello, runs>>
Init == l = 1 /\ kl = << >> /\ stops = 0 /\ TInit
Same == UNCHANGED <<kl, stops>>
Case == Is("Case") /\ Step /\ kl' = << >> /\ stops' = 0 /\ TReset
Reg == Is("Klass") /\ Step /\ kl' = kl @@ (ev.n :> ev.f) /\ UNCHANGED stops /\ UNCHANGED tvars
\* a second listener on a port that is taken
Open == Is("Open") /\ Step /\ ev.ok = ~ev.busy /\ Same /\ UNCHANGED tvars
Del == Is("Inv") /\ Step /\ InvDeliver(ev.ms) /\ Same
Ret == Is("Ret") /\ Step /\ RetDeliver(ev.ms) /\ Same
StopI == Is("StopInv") /\ Step /\ InvStop /\ stops' = stops + 1 /\ UNCHANGED kl
StopR == Is("StopRet") /\ Step /\ RetStop(stops = 1) /\ stops' = stops - 1 /\ UNCHANGED kl
HelloC == Is("Hello") /\ Step /\ Hello(ev.k) /\ Same
\* no or incomplete metadata: the client left early, or came when the listener was stopped
Short == /\ Is("Short") /\ Step /\ Same /\ UNCHANGED tvars
         /\ ev.whole => (stopping /\ ~Announced(ev.k) /\ ev.len = 0)
MetaFits(b) == \E r \in {Described(b)} : WellDescribed(r, kl, ev.big) /\ NamesIn(r) = DOMAIN kl
Read == /\ Is("Read") /\ Step /\ Same
        /\ (ev.same \/ MetaFits(ev.b))
        /\ ev.tail \in (IF ev.whole THEN {"none"} ELSE {"none", "part"})
        /\ Got(ev.k, ev.evs, ev.whole)
\* everything is destroyed: no connection is left open, no memory kept
End == Is("End") /\ Step /\ ev.socks = 0 /\ ev.blocks = 0 /\ Same /\ UNCHANGED tvars
Next == Case \/ Reg \/ Open \/ Del \/ Ret \/ StopI \/ StopR \/ HelloC \/ Short \/ Read \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
