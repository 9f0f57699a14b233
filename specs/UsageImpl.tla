------------------------------ MODULE UsageImpl ------------------------------
(* A CPU context as the code keeps it, over a process that computes, ends    *)
(* and comes back, checked against Usage: a probe reads the clock and then   *)
(* the process's ticks.  booked sums what the probes reported: no tick may   *)
(* be reported twice or get lost.                                            *)
EXTENDS Usage
CONSTANTS MaxT, Bug
VARIABLES up, ticks, lastP, lastT, booked, first, step, ts
ivars == <<proc, now, cpu, up, ticks, lastP, lastT, booked, first, step, ts>>
IInit ==
    /\ UInit /\ up = TRUE /\ ticks = 0 /\ lastP = 0 /\ lastT = 0 /\ booked = 0 /\ first = -1
    /\ step = "idle" /\ ts = 0
\* the world moves only between calls: the process under test is stopped, the clock is controlled
Compute == step = "idle" /\ up /\ ticks < MaxT /\ ticks' = ticks + 1 /\ UNCHANGED <<proc, now, cpu, up, lastP, lastT, booked, first, step, ts>>
Pass == step = "idle" /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED <<proc, cpu, up, ticks, lastP, lastT, booked, first, step, ts>>
End == step = "idle" /\ up' = ~up /\ UNCHANGED <<proc, now, cpu, ticks, lastP, lastT, booked, first, step, ts>>
Open ==      \* ht_cpu_usage_context_create
    /\ step = "idle" /\ cpu = << >>
    /\ cpu' = UPut(cpu, 1, IF up THEN [p |-> 1, known |-> TRUE, at |-> now, lo |-> ticks, hi |-> ticks] ELSE [p |-> 1, known |-> FALSE, at |-> 0, lo |-> 0, hi |-> 0])
    /\ IF up /\ Bug # "lazy" THEN lastP' = now /\ lastT' = ticks /\ first' = ticks ELSE UNCHANGED <<lastP, lastT, first>>
    /\ UNCHANGED <<proc, now, up, ticks, booked, step, ts>>
ReadClock == step = "idle" /\ 1 \in DOMAIN cpu /\ now > cpu[1].at /\ step' = "clock" /\ ts' = now /\ UNCHANGED <<proc, now, cpu, up, ticks, lastP, lastT, booked, first>>
ReadTicks ==
    /\ step = "clock" /\ step' = "idle"
    /\ IF up
       THEN /\ lastT' = (IF Bug = "keep" /\ ticks = lastT + 2 THEN lastT ELSE ticks) /\ lastP' = ts
            /\ booked' = booked + (IF first = -1 THEN 0 ELSE ticks - lastT)
            /\ first' = IF first = -1 THEN ticks ELSE first
            /\ cpu' = [cpu EXCEPT ![1] = [p |-> 1, known |-> TRUE, at |-> now, lo |-> ticks, hi |-> ticks]]
       ELSE /\ lastP' = (IF Bug = "failmoves" THEN ts ELSE lastP)
            /\ UNCHANGED <<lastT, booked, first, cpu>>
    /\ UNCHANGED <<proc, now, up, ticks, ts>>
INext == Compute \/ Pass \/ End \/ Open \/ ReadClock \/ ReadTicks
ISpec == IInit /\ [][INext]_ivars
\* what the code keeps is what the specification remembers
Agrees == step = "idle" /\ 1 \in DOMAIN cpu /\ cpu[1].known => lastP = cpu[1].at /\ lastT = cpu[1].lo
NothingTwice == first # -1 => booked = lastT - first
=============================================================================
