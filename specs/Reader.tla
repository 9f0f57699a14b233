------------------------------- MODULE Reader --------------------------------
(* The stream reader: who may be called when, and when calls may return.     *)
(* The stream holds the events 1..n (n may still grow until it has ended).   *)
EXTENDS Naturals, FiniteSets
VARIABLES
    n,        \* events in the stream so far
    fin,      \* the stream has ended
    got,      \* got[k]: events reported to listener k so far
    started,  \* start was called
    sinv,     \* a stop has begun
    sret      \* a stop has returned
rvars == <<n, fin, got, started, sinv, sret>>
RInit(ls, k) == n = k /\ fin = FALSE /\ got = [x \in ls |-> 0] /\ started = FALSE /\ sinv = FALSE /\ sret = FALSE
All == fin /\ \A k \in DOMAIN got : got[k] = n
Complete == ~started \/ sinv \/ All
Feed(k) == ~fin /\ n' = n + k /\ UNCHANGED <<fin, got, started, sinv, sret>>
Finish == fin' = TRUE /\ UNCHANGED <<n, got, started, sinv, sret>>
Start == ~started /\ started' = TRUE /\ UNCHANGED <<n, fin, got, sinv, sret>>
Call(k, i) == /\ started /\ ~sret
              /\ i = got[k] + 1 /\ i <= n
              /\ got' = [got EXCEPT ![k] = i]
              /\ UNCHANGED <<n, fin, started, sinv, sret>>
WaitReturns == Complete /\ UNCHANGED rvars
StopCalled == sinv' = TRUE /\ UNCHANGED <<n, fin, got, started, sret>>
StopReturns == sinv /\ sret' = TRUE /\ UNCHANGED <<n, fin, got, started, sinv>>
\* the end-of-stream query: true only if all is done or a stop was called, and certainly if it was so when asked
EosTrue == sret \/ ~started
Eos(v, must) == (v => Complete) /\ (must => v) /\ UNCHANGED rvars
=============================================================================
