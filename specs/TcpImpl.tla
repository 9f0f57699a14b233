------------------------------- MODULE TcpImpl -------------------------------
(* The listener's protocol: threads that deliver one event of two halves     *)
(* each through a buffer, a thread that accepts clients, stoppers, clients   *)
(* that may leave.  Refines TcpListen.                                       *)
(*   Atomic: a client gets its metadata and joins the list under one lock    *)
(*   Detach: stop waits for the accepting thread without holding the lock    *)
(*   Rest:   a delivery that sent something sends the rest of the buffer too *)
EXTENDS TcpListen, TLC
CONSTANTS Dels, Clients, Stoppers, Cap, Atomic, Detach, Rest, MayLeave
VARIABLES pd, pa, ps, lock, buf, flushed, server, list, data, left, backlog, ac, closedc, wr
iv == <<tvars, pd, pa, ps, lock, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
impl == <<pd, pa, ps, lock, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
Ev(d) == d
IInit == /\ TInit /\ pd = [d \in Dels |-> "d0"] /\ pa = "a0" /\ ps = [s \in Stoppers |-> "s0"] /\ lock = "free" /\ buf = << >> /\ flushed = FALSE
         /\ server = TRUE /\ list = {} /\ data = [c \in Clients |-> << >>] /\ left = {} /\ backlog = Clients /\ ac = "none" /\ closedc = {} /\ wr = [d \in Dels |-> 0]
Flush == data' = [c \in Clients |-> IF c \in list \ left THEN data[c] \o buf ELSE data[c]] /\ list' = list \ left /\ buf' = << >>
\* a delivery
D0(d) == pd[d] = "d0" /\ InvDeliver(<<d>>) /\ pd' = [pd EXCEPT ![d] = "d1"] /\ UNCHANGED <<pa, ps, lock, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
D1(d) == pd[d] = "d1" /\ lock = "free" /\ lock' = d /\ pd' = [pd EXCEPT ![d] = IF server THEN "d2" ELSE "d5"] /\ UNCHANGED <<tvars, pa, ps, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
\* writes half after half, sends whenever the buffer is full
D2(d) == /\ pd[d] = "d2"
         /\ IF wr[d] = 2 THEN pd' = [pd EXCEPT ![d] = IF flushed /\ Rest THEN "d4" ELSE "d5"] /\ UNCHANGED <<buf, wr>>
            ELSE /\ buf' = Append(buf, <<d, wr[d] + 1>>) /\ wr' = [wr EXCEPT ![d] = @ + 1]
                 /\ pd' = [pd EXCEPT ![d] = IF Len(buf) + 1 = Cap THEN "d3" ELSE "d2"]
         /\ UNCHANGED <<tvars, pa, ps, lock, flushed, server, list, data, left, backlog, ac, closedc>>
D3(d) == pd[d] = "d3" /\ Flush /\ flushed' = TRUE /\ pd' = [pd EXCEPT ![d] = "d2"] /\ UNCHANGED <<tvars, pa, ps, lock, server, left, backlog, ac, closedc, wr>>
D4(d) == pd[d] = "d4" /\ Flush /\ flushed' = FALSE /\ pd' = [pd EXCEPT ![d] = "d5"] /\ UNCHANGED <<tvars, pa, ps, lock, server, left, backlog, ac, closedc, wr>>
D5(d) == pd[d] = "d5" /\ lock' = "free" /\ RetDeliver(<<d>>) /\ pd' = [pd EXCEPT ![d] = "done"] /\ UNCHANGED <<pa, ps, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
\* the accepting thread
A0 == pa = "a0" /\ \/ (\E c \in backlog : ac' = c /\ backlog' = backlog \ {c} /\ pa' = "a1")
                   \/ (\E s \in Stoppers : ps[s] = "s4") /\ pa' = "done" /\ UNCHANGED <<ac, backlog>>
      /\ UNCHANGED <<tvars, pd, ps, lock, buf, flushed, server, list, data, left, closedc, wr>>
A1 == pa = "a1" /\ lock = "free" /\ lock' = "a" /\ pa' = (IF server THEN "a2" ELSE "a6") /\ UNCHANGED <<tvars, pd, ps, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
A2 == pa = "a2" /\ data' = [data EXCEPT ![ac] = Append(@, <<"meta", 0>>)] /\ pa' = "a3" /\ lock' = (IF Atomic THEN lock ELSE "free") /\ UNCHANGED <<tvars, pd, ps, buf, flushed, server, list, left, backlog, ac, closedc, wr>>
A3 == pa = "a3" /\ list' = list \cup {ac} /\ lock' = (IF Atomic THEN "free" ELSE lock) /\ pa' = "a4" /\ UNCHANGED <<tvars, pd, ps, buf, flushed, server, data, left, backlog, ac, closedc, wr>>
A4 == pa = "a4" /\ (~stopped /\ Hello(ac)) /\ pa' = "a0" /\ UNCHANGED <<pd, ps, lock, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
A6 == pa = "a6" /\ lock' = "free" /\ closedc' = closedc \cup {ac} /\ pa' = "a0" /\ UNCHANGED <<tvars, pd, ps, buf, flushed, server, list, data, left, backlog, ac, wr>>
\* stop
S0(s) == ps[s] = "s0" /\ InvStop /\ ps' = [ps EXCEPT ![s] = "s1"] /\ UNCHANGED <<pd, pa, lock, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
S1(s) == ps[s] = "s1" /\ lock = "free" /\ lock' = s /\ ps' = [ps EXCEPT ![s] = IF server THEN "s2" ELSE "s6"] /\ UNCHANGED <<tvars, pd, pa, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
S2(s) == ps[s] = "s2" /\ Flush /\ server' = FALSE /\ lock' = (IF Detach THEN "free" ELSE lock) /\ ps' = [ps EXCEPT ![s] = "s4"] /\ UNCHANGED <<tvars, pd, pa, flushed, left, backlog, ac, closedc, wr>>
S4(s) == ps[s] = "s4" /\ pa = "done" /\ closedc' = closedc \cup list \cup backlog /\ backlog' = {} /\ list' = {} /\ lock' = (IF Detach THEN lock ELSE "free") /\ ps' = [ps EXCEPT ![s] = "s7"] /\ UNCHANGED <<tvars, pd, pa, buf, flushed, server, data, left, ac, wr>>
S6(s) == ps[s] = "s6" /\ lock' = "free" /\ ps' = [ps EXCEPT ![s] = "s7"] /\ UNCHANGED <<tvars, pd, pa, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
S7(s) == ps[s] = "s7" /\ RetStop(\A t \in Stoppers \ {s} : ps[t] \in {"s0", "done"}) /\ ps' = [ps EXCEPT ![s] = "done"] /\ UNCHANGED <<pd, pa, lock, buf, flushed, server, list, data, left, backlog, ac, closedc, wr>>
Leave(c) == MayLeave /\ c \notin left \cup closedc /\ left' = left \cup {c} /\ UNCHANGED <<tvars, pd, pa, ps, lock, buf, flushed, server, list, data, backlog, ac, closedc, wr>>
Over == (\A s \in Stoppers : ps[s] = "done") /\ (\A d \in Dels : pd[d] = "done") /\ UNCHANGED iv
INext == (\E d \in Dels : D0(d) \/ D1(d) \/ D2(d) \/ D3(d) \/ D4(d) \/ D5(d)) \/ A0 \/ A1 \/ A2 \/ A3 \/ A4 \/ A6
         \/ (\E s \in Stoppers : S0(s) \/ S1(s) \/ S2(s) \/ S4(s) \/ S6(s) \/ S7(s)) \/ (\E c \in Clients : Leave(c)) \/ Over
ISpec == IInit /\ [][INext]_iv
\* the events in what a client got; <<0>> if it is not metadata and then whole events
RECURSIVE Evs(_)
Evs(s) == IF s = << >> THEN << >> ELSE IF Len(s) >= 2 /\ s[1][2] = 1 /\ s[2] = <<s[1][1], 2>> THEN <<s[1][1]>> \o Evs(SubSeq(s, 3, Len(s))) ELSE <<"?">>
Of(c) == IF data[c] = << >> THEN << >> ELSE Evs(Tail(data[c]))
ServedRight == \A c \in closedc \ left :
    /\ data[c] # << >> => Head(data[c]) = <<"meta", 0>>
    /\ data[c] = << >> => ~Announced(c)
    /\ "?" \notin Elems(Of(c))
    /\ data[c] # << >> => RunFits(c, Of(c), TRUE)
    /\ \A o \in closedc \ left : Agree(Of(c), Of(o)) /\ SameEnd(Of(c), Of(o))
\* those who left got whole events, too, perhaps a part of the last one
LeftRight == \A c \in left : LET s == data[c] IN s = << >> \/ (Head(s) = <<"meta", 0>> /\ LET n == Len(s) - 1 IN
    RunFits(c, Evs(SubSeq(s, 2, IF n % 2 = 0 THEN n + 1 ELSE n)), FALSE))
AllClosed == (\A s \in Stoppers : ps[s] = "done") => closedc \cup left = Clients
=============================================================================
