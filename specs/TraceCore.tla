------------------------------ MODULE TraceCore ------------------------------
(* Recorded histories of the real core API against Core.                     *)
EXTENDS TraceBase, Core
VARIABLE form     \* timeline -> its listeners are handed serialised events (or structures)
vars == <<form, l, up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan, call>>

Init == l = 1 /\ CInit /\ form = << >>
Case == Is("Case") /\ Step /\ CReset

\* the bytes handed over are events k+1 .. m of the timeline: which k and m?
RECURSIVE Match(_, _, _, _)
Match(t, k, m, b) ==     \* the end m if bytes b are exactly events k+1 .. m
    IF b = "" THEN m
    ELSE IF m = Len(log[t]) THEN -1
    ELSE LET e == log[t][m + 1] IN
         IF Len(e) <= Len(b) /\ SubSeq(b, 1, Len(e)) = e THEN Match(t, k, m + 1, SubSeq(b, Len(e) + 1, Len(b))) ELSE -1
Dlv ==
    /\ Is("Dlv") /\ Step
    /\ ev.t \in DOMAIN log /\ ev.ser = form[ev.t] /\ <<ev.l, ev.t>> \in DOMAIN pos
    /\ \E k \in pos[<<ev.l, ev.t>>] .. Max({pos[<<ev.l, ev.t>>], must[<<ev.l, ev.t>>]}) :
         LET m == Match(ev.t, k, k, ev.b) IN m >= 0 /\ Received(ev.l, ev.t, k, m)

Own(c) == c >= 100
EndDestroyQuiet ==      \* release of the library's own features is not observable
    LET f == [p \in {q \in DOMAIN fin : ~(q[1] = call.t /\ fin[q] = 0)} |-> fin[p]]
    IN /\ call.op = "Destroy" /\ call' = Idle
       /\ \A x \in On(tl[call.t]) : Complete(x, call.t)
       /\ AllTold
       /\ \A p \in DOMAIN f : p[1] # call.t
       /\ LET dead == Doomed IN
            /\ lst' = Drop(lst, dead)
            /\ pos' = Drop(pos, {p \in DOMAIN pos : p[1] \in dead \/ p[2] = call.t})
            /\ must' = Drop(must, {p \in DOMAIN must : p[1] \in dead \/ p[2] = call.t})
       /\ grp' = Drop(grp, Dying) /\ tl' = Drop(tl, {call.t})
       /\ log' = [log EXCEPT ![call.t] = << >>]
       /\ fin' = f
       /\ UNCHANGED <<up, base, nk, kid, clr, fid, orphan>>
Ret ==
    /\ Is("Ret") /\ Step
    /\ \/ Has(ev, "classes") /\ EndInit(ev.classes)
       \/ EndDeinit
       \/ Has(ev, "ok") /\ ev.ok /\ EndCreate
       \/ Has(ev, "ok") /\ ev.ok /\ EndReg
       \/ EndPush \/ EndFlush \/ EndUnreg \/ EndDestroyQuiet
       \/ Has(ev, "ok") /\ EndEnable(ev.ok)
Act ==
    \/ Case \/ Dlv \/ Ret
    \/ Is("Init") /\ Step /\ BeginInit
    \/ Is("Deinit") /\ Step /\ BeginDeinit
    \/ Is("Status") /\ Step /\ Status(ev.up, ev.classes)
    \/ Is("RegK") /\ Step /\ RegKlass(ev.k, ev.id)
    \/ Is("Create") /\ Step /\ BeginCreate(ev.t, ev.name)
    \/ Is("Reg") /\ Step /\ BeginReg(ev.t, ev.l, ev.cb)
    \/ Is("Push") /\ Step /\ BeginPush(ev.t, ev.b)
    \/ \E op \in {"Flush", "Unreg", "Destroy"} : Is(op) /\ Step /\ Begin(op, ev.t)
    \/ Is("LGone") /\ Step /\ LGone(ev.l)
    \/ Is("RegF") /\ Step /\ RegFeature(ev.c, ev.ok, ev.id)
    \/ Is("EnF") /\ Step /\ BeginEnable(ev.t, ev.c, ev.i, Own(ev.c))
    \/ Is("GetF") /\ Step /\ GetFeature(ev.t, ev.c, ev.i)
    \/ Is("FGone") /\ Step /\ FGone(ev.i)
    \/ Is("Stamp") /\ Step /\ ev.ok = TRUE /\ call = Idle /\ UNCHANGED cvars    \* class, time and identifier of an event made by a macro
    \/ Is("Mem") /\ Step /\ Mem(ev.blocks)
    \/ Is("End") /\ Step /\ call = Idle /\ fin = << >> /\ lst = << >> /\ grp = << >> /\ UNCHANGED cvars
Next ==
    /\ Act
    /\ form' = IF ev.e = "Case" THEN << >> ELSE IF ev.e = "Create" THEN Put(form, ev.t, ev.ser) ELSE form
Spec == Init /\ [][Next]_vars
=============================================================================
