----------------------------- MODULE PyClientImpl -----------------------------
(* The Python client: an interpreter thread that starts, polls, waits, stops  *)
(* and drops the client, the reader thread behind it, and the interpreter's   *)
(* lock (GIL).  Python objects may only be made by the holder of the lock.    *)
(* Bug: "hold" stops without giving up the lock, "nogil" makes the objects    *)
(* before taking the lock, "eos" ends before the last event is handed over,   *)
(* "wait" waits with the lock, "late" stops without waiting for the reader,   *)
(* "lifo" queues at the wrong end.                                            *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, Callback, Bug
VARIABLES gil, mpc, rpc, running, at, queue, got, stopped, late, wrong, eosSeen
vars == <<gil, mpc, rpc, running, at, queue, got, stopped, late, wrong, eosSeen>>
\* mpc: py (running Python code), stopping, waiting, off; rpc: idle, read, want, call, done
Init == /\ gil = "main" /\ mpc = "py" /\ rpc = "idle" /\ running = FALSE /\ at = 0 /\ queue = << >> /\ got = << >>
        /\ stopped = FALSE /\ late = FALSE /\ wrong = FALSE /\ eosSeen = FALSE
Start == /\ mpc = "py" /\ gil = "main" /\ rpc = "idle" /\ ~ stopped
         /\ rpc' = "read" /\ running' = TRUE /\ UNCHANGED <<gil, mpc, at, queue, got, stopped, late, wrong, eosSeen>>
\* the interpreter lets another thread run
Yield == mpc = "py" /\ gil = "main" /\ gil' = "free" /\ mpc' = "ready" /\ UNCHANGED <<rpc, running, at, queue, got, stopped, late, wrong, eosSeen>>
Resume == mpc = "ready" /\ gil = "free" /\ gil' = "main" /\ mpc' = "py" /\ UNCHANGED <<rpc, running, at, queue, got, stopped, late, wrong, eosSeen>>
Poll == /\ mpc = "py" /\ gil = "main" /\ ~ Callback /\ queue # << >>
        /\ got' = Append(got, Head(queue)) /\ queue' = Tail(queue) /\ UNCHANGED <<gil, mpc, rpc, running, at, stopped, late, wrong, eosSeen>>
Eos == mpc = "py" /\ gil = "main" /\ rpc # "idle" /\ ~ running /\ ~ stopped /\ eosSeen' = TRUE /\ UNCHANGED <<gil, mpc, rpc, running, at, queue, got, stopped, late, wrong>>
Wait == /\ mpc = "py" /\ gil = "main" /\ rpc # "idle" /\ ~ stopped
        /\ mpc' = "waiting" /\ gil' = (IF Bug = "wait" THEN "main" ELSE "free") /\ UNCHANGED <<rpc, running, at, queue, got, stopped, late, wrong, eosSeen>>
WaitEnd == mpc = "waiting" /\ ~ running /\ gil \in {"free", "main"} /\ gil' = "main" /\ mpc' = "py" /\ eosSeen' = TRUE /\ UNCHANGED <<rpc, running, at, queue, got, stopped, late, wrong>>
Stop == /\ mpc = "py" /\ gil = "main" /\ rpc # "idle" /\ ~ stopped
        /\ running' = FALSE /\ mpc' = "stopping" /\ gil' = (IF Bug = "hold" THEN "main" ELSE "free")
        /\ UNCHANGED <<rpc, at, queue, got, stopped, late, wrong, eosSeen>>
\* the reader was joined
StopEnd == /\ mpc = "stopping" /\ (rpc = "done" \/ Bug = "late") /\ gil \in {"free", "main"}
           /\ gil' = "main" /\ mpc' = "py" /\ stopped' = TRUE /\ UNCHANGED <<rpc, running, at, queue, got, late, wrong, eosSeen>>
\* the reader
Read == /\ rpc = "read"
        /\ IF ~ running \/ at = N THEN rpc' = "done" /\ running' = FALSE /\ UNCHANGED <<at, queue, wrong>>
           ELSE /\ at' = at + 1
                /\ running' = IF Bug = "eos" /\ at + 1 = N THEN FALSE ELSE running
                /\ IF Callback THEN rpc' = "want" /\ wrong' = (wrong \/ Bug = "nogil") /\ UNCHANGED queue
                   ELSE queue' = (IF Bug = "lifo" THEN <<at + 1>> \o queue ELSE Append(queue, at + 1)) /\ UNCHANGED <<rpc, wrong>>
        /\ UNCHANGED <<gil, mpc, got, stopped, late, eosSeen>>
Take == rpc = "want" /\ gil = "free" /\ gil' = "reader" /\ rpc' = "call" /\ UNCHANGED <<mpc, running, at, queue, got, stopped, late, wrong, eosSeen>>
Give == /\ rpc = "call" /\ got' = Append(got, at) /\ late' = (late \/ stopped) /\ gil' = "free" /\ rpc' = "read"
        /\ UNCHANGED <<mpc, running, at, queue, stopped, wrong, eosSeen>>
Next == Start \/ Yield \/ Resume \/ Poll \/ Eos \/ Wait \/ WaitEnd \/ Stop \/ StopEnd \/ Read \/ Take \/ Give
Spec == Init /\ [][Next]_vars /\ SF_vars(Take) /\ SF_vars(Resume) /\ WF_vars(Read) /\ WF_vars(Give) /\ SF_vars(WaitEnd) /\ SF_vars(StopEnd)
InOrder == \A i \in 1..Len(got) : got[i] = i
NothingLate == ~ late
OnlyWithLock == ~ wrong
AllAtEnd == eosSeen => Len(got) + Len(queue) = N
Returns == (mpc \in {"stopping", "waiting"}) ~> (mpc = "py")
=============================================================================
