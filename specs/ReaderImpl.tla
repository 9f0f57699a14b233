----------------------------- MODULE ReaderImpl ------------------------------
(* The reader's protocol: reading thread, waiters, a stopper, a stream that  *)
(* is fed by somebody else and may never end.  Refines Reader; deadlock      *)
(* freedom is "every call returns".                                          *)
(*   Locked: the flag is cleared under the waiters' lock                     *)
(*   WakeStream: stop() stops a continuous stream before joining             *)
EXTENDS Reader, TLC
CONSTANTS N, Waiters, Stoppers, Ends, Locked, WakeStream
VARIABLES pr, pw, ps, pf, running, mtx, sleeping, sstop
iv == <<n, fin, got, started, sinv, sret, pr, pw, ps, pf, running, mtx, sleeping, sstop>>
IInit == /\ RInit({1}, 0)
         /\ pr = "off" /\ pw = [w \in Waiters |-> "w0"] /\ ps = [s \in Stoppers |-> "s0"] /\ pf = "f0"
         /\ running = FALSE /\ mtx = "free" /\ sleeping = {} /\ sstop = FALSE
IStart == /\ ~started /\ running' = TRUE /\ pr' = "r0" /\ Start /\ UNCHANGED <<pw, ps, pf, mtx, sleeping, sstop>>
\* feeder
F == /\ pf = "f0" /\ started
     /\ \/ n < N /\ Feed(1) /\ UNCHANGED pf
        \/ n = N /\ Ends /\ Finish /\ pf' = "end"
     /\ UNCHANGED <<pr, pw, ps, running, mtx, sleeping, sstop>>
\* reading thread
R0 == pr = "r0" /\ pr' = (IF running THEN "r1" ELSE "r3") /\ UNCHANGED <<rvars, pw, ps, pf, running, mtx, sleeping, sstop>>
R1 == /\ pr = "r1"
      /\ \/ got[1] < n /\ Call(1, got[1] + 1) /\ pr' = "r0"
         \/ got[1] = n /\ (fin \/ sstop) /\ pr' = "r3" /\ UNCHANGED rvars
      /\ UNCHANGED <<pw, ps, pf, running, mtx, sleeping, sstop>>
R3 == /\ pr = "r3"
      /\ IF Locked THEN mtx = "free" /\ mtx' = "r" ELSE mtx' = mtx
      /\ running' = FALSE /\ pr' = "r4" /\ UNCHANGED <<rvars, pw, ps, pf, sleeping, sstop>>
R4 == /\ pr = "r4" /\ (IF Locked THEN mtx' = "free" ELSE mtx' = mtx) /\ pr' = "r5" /\ UNCHANGED <<rvars, pw, ps, pf, running, sleeping, sstop>>
R5 == /\ pr = "r5" /\ sleeping' = {} /\ pr' = "done" /\ UNCHANGED <<rvars, pw, ps, pf, running, mtx, sstop>>
\* a waiter (after start)
W0(w) == started /\ pw[w] = "w0" /\ mtx = "free" /\ mtx' = w /\ pw' = [pw EXCEPT ![w] = "w1"] /\ UNCHANGED <<rvars, pr, ps, pf, running, sleeping, sstop>>
W1(w) == pw[w] = "w1" /\ pw' = [pw EXCEPT ![w] = IF running THEN "w2" ELSE "w3"] /\ UNCHANGED <<rvars, pr, ps, pf, running, mtx, sleeping, sstop>>
W2(w) == pw[w] = "w2" /\ mtx' = "free" /\ sleeping' = sleeping \cup {w} /\ pw' = [pw EXCEPT ![w] = "zz"] /\ UNCHANGED <<rvars, pr, ps, pf, running, sstop>>
Wz(w) == pw[w] = "zz" /\ w \notin sleeping /\ mtx = "free" /\ mtx' = w /\ pw' = [pw EXCEPT ![w] = "w1"] /\ UNCHANGED <<rvars, pr, ps, pf, running, sleeping, sstop>>
W3(w) == pw[w] = "w3" /\ mtx' = "free" /\ WaitReturns /\ pw' = [pw EXCEPT ![w] = "done"] /\ UNCHANGED <<pr, ps, pf, running, sleeping, sstop>>
\* a stopper (after start, one at a time)
S0(s) == started /\ ps[s] = "s0" /\ (\A t \in Stoppers : ps[t] \in {"s0", "done"}) /\ StopCalled /\ ps' = [ps EXCEPT ![s] = "s1"] /\ UNCHANGED <<pr, pw, pf, running, mtx, sleeping, sstop>>
S1(s) == ps[s] = "s1" /\ running' = FALSE /\ ps' = [ps EXCEPT ![s] = "s2"] /\ UNCHANGED <<rvars, pr, pw, pf, mtx, sleeping, sstop>>
S2(s) == ps[s] = "s2" /\ sstop' = (sstop \/ WakeStream) /\ ps' = [ps EXCEPT ![s] = "s3"] /\ UNCHANGED <<rvars, pr, pw, pf, running, mtx, sleeping>>
S3(s) == ps[s] = "s3" /\ pr = "done" /\ sstop' = TRUE /\ StopReturns /\ ps' = [ps EXCEPT ![s] = "done"] /\ UNCHANGED <<pr, pw, pf, running, mtx, sleeping>>
Over == /\ \A w \in Waiters : pw[w] = "done"
        /\ \A s \in Stoppers : ps[s] = "done"
        /\ UNCHANGED iv
INext == IStart \/ F \/ R0 \/ R1 \/ R3 \/ R4 \/ R5 \/ (\E w \in Waiters : W0(w) \/ W1(w) \/ W2(w) \/ Wz(w) \/ W3(w)) \/ (\E s \in Stoppers : S0(s) \/ S1(s) \/ S2(s) \/ S3(s)) \/ Over
ISpec == IInit /\ [][INext]_iv
WaitMayReturn == \A w \in Waiters : pw[w] = "w3" => Complete
EosFits == started /\ ~running => Complete \/ pr \in {"r4", "r5", "done"}
Refines == [][Feed(1) \/ Finish \/ Start \/ (\E k \in {1} : \E i \in 1..N : Call(k, i)) \/ StopCalled \/ StopReturns]_rvars
=============================================================================
