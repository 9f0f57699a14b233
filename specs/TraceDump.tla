------------------------------ MODULE TraceDump ------------------------------
(* Recorded histories of real file dump listeners against FileDump and Meta. *)
EXTENDS TraceBase, FileDump, Meta
VARIABLES kl, ms
vars == <<l, kl, ms, given, taken, before, must, may, closed, order, opens>>
Init == l = 1 /\ kl = << >> /\ ms = << >> /\ FInit
Same == UNCHANGED <<kl, ms>>
Case == Is("Case") /\ Step /\ kl' = << >> /\ ms' = << >> /\ FReset
\* (class registration is C06's subject; here it only fixes what the file must begin with)
Reg == Is("Klass") /\ Step /\ kl' = kl @@ (ev.n :> ev.f) /\ UNCHANGED <<ms>> /\ UNCHANGED fvars
MetaFits(b, names) == ev.same \/ \E r \in {Described(b)} : WellDescribed(r, kl, ev.big) /\ NamesIn(r) = names
OpenD == Is("Open") /\ Step /\ ev.ok /\ Open(ev.d) /\ ms' = Put(ms, ev.d, DOMAIN kl) /\ UNCHANGED kl
Refused == Is("OpenFail") /\ Step /\ ev.ok /\ Same /\ UNCHANGED fvars
Del == Is("Inv") /\ Step /\ InvDeliver(ev.d, ev.ms, ev.seq) /\ Same
Ret == Is("Ret") /\ Step /\ RetDeliver(ev.d, ev.ms) /\ Same
Stop == Is("StopInv") /\ Step /\ InvStop(ev.d) /\ Same
Stopped == Is("StopRet") /\ Step /\ RetStop(ev.d) /\ Same
Flush == Is("FlushInv") /\ Step /\ InvFlush(ev.d, ev.c) /\ Same
\* flush returned and the file was read at once
Flushed == /\ Is("FlushRet") /\ Step /\ RetFlush(ev.c) /\ Same
           /\ ev.ok
SeeFlush == /\ Is("See") /\ Step /\ ev.c \in DOMAIN opens
            /\ MetaFits(ev.b, ms[ev.d])
            /\ View(ev.d, ev.evs, Els(ev.part), opens[ev.c][2]) /\ Same
\* after the end: everything that must be there is, and nothing half
SeeEnd == /\ Is("SeeEnd") /\ Step /\ ev.d \in closed
          /\ MetaFits(ev.b, ms[ev.d])
          /\ View(ev.d, ev.evs, Els(ev.part), must[ev.d]) /\ Same
Next == Case \/ Reg \/ OpenD \/ Refused \/ Del \/ Ret \/ Stop \/ Stopped \/ Flush \/ Flushed \/ SeeFlush \/ SeeEnd
Spec == Init /\ [][Next]_vars
=============================================================================
