---------------------------- MODULE NetStreamImpl ----------------------------
(* The stream's protocol: receiving thread, queue with condition variable,   *)
(* one reading thread (single bytes), one stopping thread; the server sends  *)
(* N bytes and closes, or does not (Ends = FALSE).                           *)
(*   Locked: the end is published under the queue's lock                     *)
(*   Wakes: stop wakes up a receiving thread that waits for data             *)
EXTENDS NetStream, TLC
CONSTANTS N, Ends, Stopper, Locked, Wakes
VARIABLES net, pr, pv, ps, conn, mtx, queue, zz, shut
iv == <<sent, closed, cur, pos, broken, stops, net, pr, pv, ps, conn, mtx, queue, zz, shut>>
IInit == /\ sent = << >> /\ closed = {} /\ cur = 1 /\ pos = 0 /\ broken = FALSE /\ stops = FALSE
         /\ net = << >> /\ pr = "r0" /\ pv = "v0" /\ ps = (IF Stopper THEN "s0" ELSE "done") /\ conn = TRUE /\ mtx = "free" /\ queue = << >> /\ zz = FALSE /\ shut = FALSE
Server == \/ Len(Of(1)) < N /\ Send(1, <<Len(Of(1)) + 1>>) /\ net' = Append(net, Len(Of(1)) + 1) /\ UNCHANGED <<pr, pv, ps, conn, mtx, queue, zz, shut>>
          \/ Len(Of(1)) = N /\ Ends /\ 1 \notin closed /\ Close(1) /\ UNCHANGED <<net, pr, pv, ps, conn, mtx, queue, zz, shut>>
\* receiving thread
V0 == /\ pv = "v0"
      /\ \/ net # << >> /\ ~shut /\ pv' = "v1" /\ UNCHANGED net
         \/ (shut \/ (net = << >> /\ 1 \in closed)) /\ pv' = "v4" /\ UNCHANGED net
      /\ UNCHANGED <<nvars, pr, ps, conn, mtx, queue, zz, shut>>
V1 == pv = "v1" /\ mtx = "free" /\ mtx' = "v" /\ pv' = "v2" /\ UNCHANGED <<nvars, net, pr, ps, conn, queue, zz, shut>>
V2 == pv = "v2" /\ queue' = Append(queue, Head(net)) /\ net' = Tail(net) /\ mtx' = "free" /\ pv' = "v3" /\ UNCHANGED <<nvars, pr, ps, conn, zz, shut>>
V3 == pv = "v3" /\ zz' = FALSE /\ pv' = "v0" /\ UNCHANGED <<nvars, net, pr, ps, conn, mtx, queue, shut>>
V4 == pv = "v4" /\ (IF Locked THEN mtx = "free" /\ mtx' = "v" ELSE mtx' = mtx) /\ pv' = "v5" /\ UNCHANGED <<nvars, net, pr, ps, conn, queue, zz, shut>>
V5 == pv = "v5" /\ conn' = FALSE /\ (IF Locked THEN mtx' = "free" ELSE mtx' = mtx) /\ pv' = "v6" /\ UNCHANGED <<nvars, net, pr, ps, queue, zz, shut>>
V6 == pv = "v6" /\ zz' = FALSE /\ pv' = "done" /\ UNCHANGED <<nvars, net, pr, ps, conn, mtx, queue, shut>>
\* reading thread
R0 == pr = "r0" /\ mtx = "free" /\ mtx' = "r" /\ pr' = "r1" /\ UNCHANGED <<nvars, net, pv, ps, conn, queue, zz, shut>>
R1 == pr = "r1" /\ pr' = (IF queue # << >> THEN "take" ELSE IF ~conn THEN "none" ELSE "r2") /\ UNCHANGED <<nvars, net, pv, ps, conn, mtx, queue, zz, shut>>
R2 == pr = "r2" /\ mtx' = "free" /\ zz' = TRUE /\ pr' = "zz" /\ UNCHANGED <<nvars, net, pv, ps, conn, queue, shut>>
Rz == pr = "zz" /\ ~zz /\ mtx = "free" /\ mtx' = "r" /\ pr' = "r1" /\ UNCHANGED <<nvars, net, pv, ps, conn, queue, zz, shut>>
Take == pr = "take" /\ ReadGot(<<Head(queue)>>) /\ queue' = Tail(queue) /\ mtx' = "free" /\ pr' = "r0" /\ UNCHANGED <<net, pv, ps, conn, zz, shut>>
None == pr = "none" /\ ReadEnd(1) /\ mtx' = "free" /\ pr' = "done" /\ UNCHANGED <<net, pv, ps, conn, queue, zz, shut>>
\* stopping thread
S0 == ps = "s0" /\ StopCalled /\ ps' = "s1" /\ UNCHANGED <<net, pr, pv, conn, mtx, queue, zz, shut>>
S1 == ps = "s1" /\ mtx = "free" /\ shut' = (shut \/ (Wakes /\ conn)) /\ ps' = "s2" /\ UNCHANGED <<nvars, net, pr, pv, conn, mtx, queue, zz>>
S2 == ps = "s2" /\ pv = "done" /\ ps' = "done" /\ UNCHANGED <<nvars, net, pr, pv, conn, mtx, queue, zz, shut>>
Over == pr = "done" /\ pv = "done" /\ ps = "done" /\ UNCHANGED iv
INext == Server \/ V0 \/ V1 \/ V2 \/ V3 \/ V4 \/ V5 \/ V6 \/ R0 \/ R1 \/ R2 \/ Rz \/ Take \/ None \/ S0 \/ S1 \/ S2 \/ Over
ISpec == IInit /\ [][INext]_iv
\* what the threads are about to do is allowed
Fits == /\ pr = "take" => (~broken /\ Head(queue) = Of(1)[pos + 1])
        /\ pr = "none" => (stops \/ (1 \in closed /\ pos = Len(Of(1))))
=============================================================================
