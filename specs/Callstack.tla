------------------------------ MODULE Callstack ------------------------------
(* Traced scopes on a timeline.  Time is <<seconds, nanoseconds>>.           *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES
    stack,   \* open scopes, innermost last: [k (class), lab, rest (other fields), at (start time), n (start number), id]
    out,     \* events that must still be delivered, in order
    nstart,  \* scopes started so far
    nout,    \* events delivered so far
    ids      \* start numbers and identifiers of delivered events, sorted by both.  Events come in the order in
             \* which scopes end, so those started inside one that was delivered need not be remembered
kvars == <<stack, out, nstart, nout, ids>>
KInit == stack = << >> /\ out = << >> /\ nstart = 0 /\ nout = 0 /\ ids = << >>
Giga == 1000000000
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Giga - b[2]>>
\* id: the identifier the caller saw (-1: not visible to the caller)
Start(k, lab, rest, at, id) ==
    /\ nstart' = nstart + 1
    /\ stack' = Append(stack, [k |-> k, lab |-> lab, rest |-> rest, at |-> at, n |-> nstart + 1, id |-> id])
    /\ UNCHANGED <<out, nout, ids>>
Stop(at, thread) ==
    /\ stack # << >>
    /\ LET s == stack[Len(stack)] IN
         out' = Append(out, [k |-> s.k, lab |-> s.lab, rest |-> s.rest, ts |-> s.at, dur |-> Minus(at, s.at), thread |-> thread, n |-> s.n, id |-> s.id])
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ UNCHANGED <<nstart, nout, ids>>
\* an event is delivered: the oldest outstanding one; identifiers grow with the order of the starts
Emitted(k, lab, rest, ts, dur, thread, id) ==
    /\ out # << >>
    /\ LET e == Head(out) IN
         /\ e.k = k /\ e.lab = lab /\ e.rest = rest /\ e.ts = ts /\ e.dur = dur /\ e.thread = thread
         /\ (e.id >= 0 => e.id = id)
         /\ LET old == SelectSeq(ids, LAMBDA p : p[1] < e.n)
                new == SelectSeq(ids, LAMBDA p : p[1] > e.n) IN
            /\ old # << >> => Last(old)[2] < id
            /\ new # << >> => id < Head(new)[2]
            /\ ids' = Append(old, <<e.n, id>>)
    /\ nout' = nout + 1
    /\ out' = Tail(out) /\ UNCHANGED <<stack, nstart>>
Flushed == out = << >> /\ UNCHANGED kvars
\* consequences: one event per closed scope, properly nested in time and number
Balanced == nstart = Len(stack) + Len(out) + nout
Nested == \A i \in 1..(Len(stack) - 1) : stack[i].n < stack[i + 1].n /\ Leq(stack[i].at, stack[i + 1].at)
Sorted == \A i \in 1..(Len(ids) - 1) : ids[i][1] < ids[i + 1][1] /\ ids[i][2] < ids[i + 1][2]
=============================================================================
