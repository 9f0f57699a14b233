------------------------------ MODULE TcpListen ------------------------------
(* What the clients of a TCP listener may receive while events are delivered *)
(* to it, clients come and go and it is stopped.  There is one order of all  *)
(* the events; every client gets a run of it that has no holes, begins no    *)
(* later than the listener said it was connected and, for a client that      *)
(* stays, ends where the listener was stopped.                               *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES
    given,    \* events whose delivery has begun
    taken,    \* those whose delivery has returned
    before,   \* before[m]: events that must precede m
    must,     \* once a stop has begun: what had been taken then
    stopping, \* a stop has begun
    stopped,  \* a stop has returned
    may,      \* once a stop has returned: what had been given then
    hello,    \* hello[k]: client k was announced; what had been given then
    runs      \* what clients got: sequence of [k, evs, whole]
tvars == <<given, taken, before, must, stopping, stopped, may, hello, runs>>
TInit == given = {} /\ taken = {} /\ before = << >> /\ must = {} /\ stopping = FALSE /\ stopped = FALSE /\ may = {} /\ hello = << >> /\ runs = << >>
TReset == given' = {} /\ taken' = {} /\ before' = << >> /\ must' = {} /\ stopping' = FALSE /\ stopped' = FALSE /\ may' = {} /\ hello' = << >> /\ runs' = << >>
Elems(s) == {s[i] : i \in 1..Len(s)}
InvDeliver(ms) ==
    /\ Elems(ms) \cap given = {}
    /\ before' = [m \in DOMAIN before \cup Elems(ms) |->
                    IF m \in Elems(ms) THEN taken \cup {ms[j] : j \in 1..(CHOOSE k \in 1..Len(ms) : ms[k] = m) - 1} ELSE before[m]]
    /\ given' = given \cup Elems(ms)
    /\ UNCHANGED <<taken, must, stopping, stopped, may, hello, runs>>
RetDeliver(ms) ==
    /\ Elems(ms) \subseteq given
    /\ taken' = taken \cup Elems(ms)
    /\ UNCHANGED <<given, before, must, stopping, stopped, may, hello, runs>>
InvStop == /\ stopping' = TRUE /\ must' = IF stopping THEN must ELSE taken
           /\ UNCHANGED <<given, taken, before, stopped, may, hello, runs>>
\* (of several overlapping stops the last one to return counts)
RetStop(last) == /\ stopped' = (stopped \/ last) /\ may' = IF last /\ ~stopped THEN given ELSE may
                 /\ UNCHANGED <<given, taken, before, must, stopping, hello, runs>>
Hello(k) == /\ k \notin DOMAIN hello /\ ~stopped
            /\ hello' = [x \in DOMAIN hello \cup {k} |-> IF x = k THEN given ELSE hello[x]]
            /\ UNCHANGED <<given, taken, before, must, stopping, stopped, may, runs>>
Announced(k) == k \in DOMAIN hello
\* run evs lies without holes in an order of the given events
RunFits(k, evs, whole) ==
    LET in == Elems(evs) IN
    /\ Len(evs) = Cardinality(in) /\ in \subseteq given
    /\ stopped => in \subseteq may
    /\ \A i \in 1..Len(evs) : \A j \in 1..i : evs[i] \notin before[evs[j]]
    /\ \A m \in given \ in :
         \/ in \cap before[m] = {} /\ (Announced(k) => m \in hello[k])               \* m came before the run
         \/ (~whole \/ m \notin must) /\ (\A x \in in : m \notin before[x])           \* m comes after it
\* two runs are parts of one order
At(s, m) == CHOOSE i \in 1..Len(s) : s[i] = m
Agree(a, b) == LET both == Elems(a) \cap Elems(b) IN
    IF both = {} THEN TRUE ELSE LET m == CHOOSE m \in both : TRUE
                     d == At(a, m) - At(b, m) IN
                 \A i \in 1..Len(a) : i - d \in 1..Len(b) => a[i] = b[i - d]
SameEnd(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN SubSeq(a, Len(a) - n + 1, Len(a)) = SubSeq(b, Len(b) - n + 1, Len(b))
\* client k has read its metadata and evs; whole: the listener closed the connection
Got(k, evs, whole) ==
    /\ whole => stopping
    /\ RunFits(k, evs, whole) = TRUE
    /\ (\A i \in 1..Len(runs) : Agree(runs[i].evs, evs) /\ (whole /\ runs[i].whole => SameEnd(runs[i].evs, evs))) = TRUE
    /\ runs' = Append(runs, [k |-> k, evs |-> evs, whole |-> whole])
    /\ UNCHANGED <<given, taken, before, must, stopping, stopped, may, hello>>
=============================================================================
