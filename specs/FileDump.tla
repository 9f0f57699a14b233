------------------------------ MODULE FileDump -------------------------------
(* What the file of a dump listener may contain while events are delivered   *)
(* to it, it is flushed and stopped, by any number of threads.               *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES
    given,    \* given[d]: events whose delivery to dump d has begun
    taken,    \* taken[d]: those whose delivery has returned
    before,   \* before[m]: events that must precede m
    must,     \* must[d], once a stop has begun: events the file must hold (their delivery returned before)
    may,      \* may[d]: once a stop has returned, the only events the file may hold
    closed,   \* dumps whose stop has returned
    order,    \* order[d]: events seen in the file so far
    opens     \* flush calls under way: call -> <<dump, events that must be in the file>>
fvars == <<given, taken, before, must, may, closed, order, opens>>
FInit == given = << >> /\ taken = << >> /\ before = << >> /\ must = << >> /\ may = << >> /\ closed = {} /\ order = << >> /\ opens = << >>
FReset == given' = << >> /\ taken' = << >> /\ before' = << >> /\ must' = << >> /\ may' = << >> /\ closed' = {} /\ order' = << >> /\ opens' = << >>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Els(s) == {s[i] : i \in 1..Len(s)}

Open(d) == /\ d \notin DOMAIN given
           /\ given' = Put(given, d, {}) /\ taken' = Put(taken, d, {}) /\ may' = Put(may, d, {}) /\ order' = Put(order, d, << >>)
           /\ UNCHANGED <<before, closed, opens, must>>
\* a batch of events ms; inorder: the caller is known to deliver one batch after the other
InvDeliver(d, ms, inorder) ==
    /\ d \in DOMAIN given /\ Els(ms) \cap given[d] = {}
    /\ before' = [m \in DOMAIN before \cup Els(ms) |->
                    IF m \in Els(ms) THEN (IF inorder THEN given[d] ELSE taken[d]) \cup {ms[j] : j \in 1..(CHOOSE k \in 1..Len(ms) : ms[k] = m) - 1} ELSE before[m]]
    /\ given' = [given EXCEPT ![d] = @ \cup Els(ms)]
    /\ UNCHANGED <<taken, must, may, closed, order, opens>>
RetDeliver(d, ms) ==
    /\ Els(ms) \subseteq given[d]
    /\ taken' = [taken EXCEPT ![d] = @ \cup Els(ms)]
    /\ UNCHANGED <<given, before, must, may, closed, order, opens>>
InvStop(d) == /\ must' = IF d \in DOMAIN must THEN must ELSE Put(must, d, taken[d])
              /\ UNCHANGED <<given, taken, before, may, closed, order, opens>>
RetStop(d) == /\ closed' = closed \cup {d}
              /\ may' = IF d \in closed THEN may ELSE [may EXCEPT ![d] = given[d]]
              /\ UNCHANGED <<given, taken, before, must, order, opens>>
InvFlush(d, c) == /\ opens' = Put(opens, c, <<d, IF d \in DOMAIN must THEN must[d] ELSE taken[d]>>)
                  /\ UNCHANGED <<given, taken, before, must, may, closed, order>>
RetFlush(c) == /\ c \in DOMAIN opens
               /\ opens' = [x \in DOMAIN opens \ {c} |-> opens[x]]
               /\ UNCHANGED <<given, taken, before, must, may, closed, order>>
MayFollow(d, s, m) ==
    /\ m \in given[d] /\ m \notin Els(s)
    /\ before[m] \subseteq Els(s)
    /\ d \in closed => m \in may[d]
RECURSIVE Grows(_, _, _)
Grows(d, s, more) == IF more = << >> THEN TRUE ELSE MayFollow(d, s, Head(more)) /\ Grows(d, Append(s, Head(more)), Tail(more))
\* the file is looked at: events evs, possibly followed by the beginning of one more (one of parts)
View(d, evs, parts, need) ==
    /\ d \in DOMAIN order
    /\ Len(evs) >= Len(order[d]) /\ SubSeq(evs, 1, Len(order[d])) = order[d]
    /\ Grows(d, order[d], SubSeq(evs, Len(order[d]) + 1, Len(evs)))
    /\ parts # {} => (d \notin closed /\ \E m \in parts : MayFollow(d, evs, m))
    /\ need \subseteq Els(evs)
    /\ order' = [order EXCEPT ![d] = evs]
    /\ UNCHANGED <<given, taken, before, must, may, closed, opens>>
=============================================================================
