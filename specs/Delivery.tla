------------------------------ MODULE Delivery -------------------------------
(* What several threads pushing to and flushing one timeline may observe.    *)
(* A push or flush is an interval (invoked .. returned).  Delivery of an     *)
(* event to a listener happens somewhere inside those intervals.             *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    inv,     \* pushes and flushes invoked so far
    ret,     \* those that returned
    pushes,  \* which of inv are pushes
    pre,     \* pre[n]: pushes that had returned when n was invoked
    order,   \* the order in which events are delivered (the same for everyone)
    pos      \* pos[l]: how many events of order listener l has received

dvars == <<inv, ret, pushes, pre, order, pos>>

DInit(ls) ==
    /\ inv = {} /\ ret = {} /\ pushes = {} /\ pre = << >> /\ order = << >>
    /\ pos = [x \in ls |-> 0]

Delivered(ord) == {ord[i] : i \in 1..Len(ord)}

InvPush(n) ==
    /\ n \notin inv
    /\ inv' = inv \cup {n} /\ pushes' = pushes \cup {n}
    /\ pre' = [x \in inv \cup {n} |-> IF x = n THEN ret \cap pushes ELSE pre[x]]
    /\ UNCHANGED <<ret, order, pos>>

InvFlush(n) ==
    /\ n \notin inv
    /\ inv' = inv \cup {n}
    /\ pre' = [x \in inv \cup {n} |-> IF x = n THEN ret \cap pushes ELSE pre[x]]
    /\ UNCHANGED <<ret, pushes, order, pos>>

RetPush(n) ==
    /\ n \in pushes \ ret
    /\ ret' = ret \cup {n}
    /\ UNCHANGED <<inv, pushes, pre, order, pos>>

\* a flush returns only when everything pushed before its call is with everybody
RetFlush(n) ==
    /\ n \in inv \ (pushes \cup ret)
    /\ pre[n] \subseteq Delivered(order)
    /\ \A x \in DOMAIN pos : pre[n] \subseteq {order[i] : i \in 1..pos[x]}
    /\ ret' = ret \cup {n}
    /\ UNCHANGED <<inv, pushes, pre, order, pos>>

\* may event p become the next one delivered after ord?
MayFollow(ord, p) ==
    /\ p \in pushes                              \* never anything that was not pushed
    /\ p \notin Delivered(ord)                   \* never twice
    /\ pre[p] \subseteq Delivered(ord)           \* never before one pushed earlier

\* listener x receives event p next
Deliver(x, p) ==
    /\ x \in DOMAIN pos
    /\ IF pos[x] < Len(order)
       THEN order[pos[x] + 1] = p /\ order' = order
       ELSE MayFollow(order, p) /\ order' = Append(order, p)
    /\ pos' = [pos EXCEPT ![x] = @ + 1]
    /\ UNCHANGED <<inv, ret, pushes, pre>>

\* ------------------------------------------------------------ consequences
ExactlyOnce == \A i, j \in 1..Len(order) : order[i] = order[j] => i = j
OnlyPushed == Delivered(order) \subseteq pushes
RealTime == \A i, j \in 1..Len(order) : order[i] \in pre[order[j]] => i < j
Sane == \A x \in DOMAIN pos : pos[x] <= Len(order)
=============================================================================
