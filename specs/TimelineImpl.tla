---------------------------- MODULE TimelineImpl -----------------------------
(* The shape of the timeline: a bounded buffer, a lock around push and       *)
(* flush, and a loop over the listeners.  One action per lock-protected step *)
(* that other threads or listeners can observe.  It refines Delivery.        *)
(* Bug selects a deliberately broken variant, to show that the refinement    *)
(* and the invariants really discriminate.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Listeners, Cap, Script, Size, Bug
\* Script[t]: sequence of operations of thread t: a push number (1..99) or a flush number (>= 100)
VARIABLES pc, ip, lock, buf, li, batch, inv, ret, pushes, pre, order, pos
D == INSTANCE Delivery
vars == <<pc, ip, lock, buf, li, batch, inv, ret, pushes, pre, order, pos>>

NL == Len(Listeners)
Op(t) == Script[t][ip[t]]
IsPush(n) == n < 100
Usage(b) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Size[b[k]] + S(k - 1) IN S(Len(b))

Init ==
    /\ pc = [t \in Threads |-> "idle"] /\ ip = [t \in Threads |-> 1]
    /\ lock = "free" /\ buf = << >> /\ li = [t \in Threads |-> 0] /\ batch = [t \in Threads |-> << >>]
    /\ D!DInit({Listeners[i] : i \in 1..NL})

Invoke(t) ==
    /\ pc[t] = "idle" /\ ip[t] <= Len(Script[t])
    /\ IF IsPush(Op(t)) THEN D!InvPush(Op(t)) ELSE D!InvFlush(Op(t))
    /\ pc' = [pc EXCEPT ![t] = "lock"]
    /\ UNCHANGED <<ip, lock, buf, li, batch>>

NoLock(t) == Bug = "flush-unlocked" /\ ~IsPush(Op(t))

Lock(t) ==
    /\ pc[t] = "lock"
    /\ IF NoLock(t) THEN lock' = lock ELSE lock = "free" /\ lock' = t
    /\ pc' = [pc EXCEPT ![t] = IF ~IsPush(Op(t)) THEN "flush"
                               ELSE IF Usage(buf) + Size[Op(t)] > Cap THEN "flush" ELSE "store"]
    /\ UNCHANGED <<ip, buf, li, batch, inv, ret, pushes, pre, order, pos>>

\* start notifying the listeners with the buffer's content
Flush(t) ==
    /\ pc[t] = "flush"
    /\ IF buf = << >>
       THEN /\ pc' = [pc EXCEPT ![t] = IF IsPush(Op(t)) THEN "store" ELSE "unlock"]
            /\ UNCHANGED <<li, batch>>
       ELSE /\ pc' = [pc EXCEPT ![t] = "notify"]
            /\ li' = [li EXCEPT ![t] = 1] /\ batch' = [batch EXCEPT ![t] = buf]
    /\ UNCHANGED <<ip, lock, buf, inv, ret, pushes, pre, order, pos>>

\* one event of the batch to the current listener
Notify(t) ==
    /\ pc[t] \in {"notify", "direct"}
    /\ batch[t] # << >>
    /\ D!Deliver(Listeners[li[t]], Head(batch[t]))
    /\ IF Len(batch[t]) > 1
       THEN /\ batch' = [batch EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<pc, li, buf>>
       ELSE IF li[t] < NL
       THEN /\ li' = [li EXCEPT ![t] = @ + 1]
            /\ batch' = [batch EXCEPT ![t] = IF pc[t] = "notify" THEN buf ELSE <<Op(t)>>]
            /\ UNCHANGED <<pc, buf>>
       ELSE /\ li' = [li EXCEPT ![t] = 0] /\ batch' = [batch EXCEPT ![t] = << >>]
            /\ IF pc[t] = "direct"
               THEN pc' = [pc EXCEPT ![t] = "unlock"] /\ buf' = buf
               ELSE /\ buf' = IF Bug = "keep-buffer" THEN buf ELSE << >>
                    /\ pc' = [pc EXCEPT ![t] = IF IsPush(Op(t)) THEN "store" ELSE "unlock"]
    /\ UNCHANGED <<ip, lock>>

Store(t) ==
    /\ pc[t] = "store"
    /\ IF Size[Op(t)] > Cap
       THEN /\ pc' = [pc EXCEPT ![t] = "direct"] /\ li' = [li EXCEPT ![t] = 1]
            /\ batch' = [batch EXCEPT ![t] = <<Op(t)>>] /\ buf' = buf
       ELSE /\ buf' = IF Bug = "drop-when-full" /\ Usage(buf) + Size[Op(t)] = Cap THEN buf ELSE Append(buf, Op(t))
            /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<li, batch>>
    /\ UNCHANGED <<ip, lock, inv, ret, pushes, pre, order, pos>>

Unlock(t) ==
    /\ pc[t] = "unlock"
    /\ lock' = IF lock = t THEN "free" ELSE lock
    /\ pc' = [pc EXCEPT ![t] = "return"]
    /\ UNCHANGED <<ip, buf, li, batch, inv, ret, pushes, pre, order, pos>>

Return(t) ==
    /\ pc[t] = "return"
    /\ IF IsPush(Op(t)) THEN D!RetPush(Op(t)) ELSE D!RetFlush(Op(t))
    /\ ip' = [ip EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ UNCHANGED <<lock, buf, li, batch>>

AllDone == \A t \in Threads : ip[t] > Len(Script[t])
Done == AllDone /\ UNCHANGED vars
Next == Done \/ \E t \in Threads : Invoke(t) \/ Lock(t) \/ Flush(t) \/ Notify(t) \/ Store(t) \/ Unlock(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Invoke(t) \/ Lock(t) \/ Flush(t) \/ Notify(t) \/ Store(t) \/ Unlock(t) \/ Return(t))

\* Notify and Return are conjoined with Delivery's own actions: where the
\* implementation would do something Delivery forbids, the step is blocked and
\* TLC reports a deadlock; so "no deadlock" is the refinement check.
Inv == D!ExactlyOnce /\ D!OnlyPushed /\ D!RealTime /\ D!Sane
       /\ Usage(buf) <= Cap
\* whatever was pushed is delivered or in the buffer: nothing is lost
Conserved ==
    \A t \in Threads : \A k \in 1..(ip[t] - 1) :
        IsPush(Script[t][k]) =>
            \/ Script[t][k] \in D!Delivered(order)
            \/ \E i \in 1..Len(buf) : buf[i] = Script[t][k]
Termination == <>AllDone
=============================================================================
