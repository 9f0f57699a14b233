---------------------------- MODULE TraceDelivery ----------------------------
(* Recorded concurrent histories of the real timeline against Delivery.      *)
EXTENDS TraceBase
VARIABLES inv, ret, pushes, pre, order, pos
D == INSTANCE Delivery
vars == <<l, inv, ret, pushes, pre, order, pos>>

Init == l = 1 /\ D!DInit({})

Case == /\ Is("Case") /\ Step
        /\ inv' = {} /\ ret' = {} /\ pushes' = {} /\ pre' = << >> /\ order' = << >> /\ pos' = << >>
\* registration before any push (C03 covers registration at other times)
Reg == /\ Is("Reg") /\ Step /\ inv = {}
       /\ pos' = [x \in DOMAIN pos \cup {ev.l} |-> 0]
       /\ UNCHANGED <<inv, ret, pushes, pre, order>>
Inv == /\ Is("Inv") /\ Step
       /\ IF ev.op = "push" THEN D!InvPush(ev.n) ELSE D!InvFlush(ev.n)
Ret == /\ Is("Ret") /\ Step
       /\ IF ev.n \in pushes THEN D!RetPush(ev.n) ELSE D!RetFlush(ev.n)

\* a batch is a sequence of Deliver steps of the same listener
RECURSIVE Extend(_, _, _)
Extend(ord, p, es) ==       \* order after delivering es to a listener at position p; <<-1>> if not allowed
    IF es = << >> THEN ord
    ELSE IF p < Len(ord)
         THEN IF ord[p + 1] = Head(es) THEN Extend(ord, p + 1, Tail(es)) ELSE <<-1>>
         ELSE IF D!MayFollow(ord, Head(es)) THEN Extend(Append(ord, Head(es)), p + 1, Tail(es)) ELSE <<-1>>
Dlv == /\ Is("Dlv") /\ Step
       /\ ev.l \in DOMAIN pos
       /\ LET o == Extend(order, pos[ev.l], ev.evs) IN
            /\ o # <<-1>>
            /\ order' = o
       /\ pos' = [pos EXCEPT ![ev.l] = @ + Len(ev.evs)]
       /\ UNCHANGED <<inv, ret, pushes, pre>>
\* end of the scenario: all calls returned, everything is with everyone
End == /\ Is("End") /\ Step
       /\ inv = ret
       /\ D!Delivered(order) = pushes
       /\ \A x \in DOMAIN pos : pos[x] = Len(order)
       /\ UNCHANGED <<inv, ret, pushes, pre, order, pos>>
Next == Case \/ Reg \/ Inv \/ Ret \/ Dlv \/ End
Spec == Init /\ [][Next]_vars
Props == D!ExactlyOnce /\ D!OnlyPushed /\ D!RealTime /\ D!Sane
=============================================================================
