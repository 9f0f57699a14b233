-------------------------------- MODULE Usage --------------------------------
(* What the usage probes report.  A process has used some clock ticks and    *)
(* holds some pages, or cannot be read.  A CPU context remembers the clock   *)
(* and the ticks of its last successful probe (its creation is the first).   *)
(* Times in milliseconds, percentages in hundredths.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Hz                    \* clock ticks per second
VARIABLES
    proc,     \* process -> [lo, hi (ticks used, bounds), virt, shr, res (pages)] for those that can be read
    now,      \* the clock
    cpu       \* CPU context -> [p, known, at, lo, hi]: its last successful probe
uvars == <<proc, now, cpu>>
UInit == proc = << >> /\ now = 0 /\ cpu = << >>
UReset == proc' = << >> /\ now' = 0 /\ cpu' = << >>
UPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
UDrop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Is1(p) == p \in DOMAIN proc

\* the system moves
Live(p, r) == proc' = UPut(proc, p, r) /\ UNCHANGED <<now, cpu>>
Dead(p) == proc' = UDrop(proc, p) /\ UNCHANGED <<now, cpu>>
Clock(t) == t >= now /\ now' = t /\ UNCHANGED <<proc, cpu>>

OpenCpu(c, p) ==
    /\ c \notin DOMAIN cpu
    /\ cpu' = UPut(cpu, c, IF Is1(p) THEN [p |-> p, known |-> TRUE, at |-> now, lo |-> proc[p].lo, hi |-> proc[p].hi]
                           ELSE [p |-> p, known |-> FALSE, at |-> 0, lo |-> 0, hi |-> 0])
    /\ UNCHANGED <<proc, now>>
CloseCpu(c) == c \in DOMAIN cpu /\ cpu' = UDrop(cpu, c) /\ UNCHANGED <<proc, now>>

Max2(a, b) == IF a > b THEN a ELSE b
\* percentage v (hundredths) for between a and b ticks in d milliseconds: v = 100 * 100 * ticks * 1000 / (Hz * d)
Percent(v, a, b, d) ==
    LET scale == 10000000 \div Hz IN       \* v * d = ticks * scale, up to rounding
    v * d >= Max2(0, a) * scale - d - (a * scale) \div 50000 /\ v * d <= b * scale + d + (b * scale) \div 50000
\* the time between two probes is positive
Probe(c, ok, v) ==
    LET x == cpu[c] IN
    /\ c \in DOMAIN cpu
    /\ ok = Is1(x.p)                       \* an error exactly when the process cannot be read
    /\ IF ok
       THEN /\ v >= 0
            /\ x.known => now > x.at /\ Percent(v, proc[x.p].lo - x.hi, proc[x.p].hi - x.lo, now - x.at)
            /\ cpu' = [cpu EXCEPT ![c] = [p |-> x.p, known |-> TRUE, at |-> now, lo |-> proc[x.p].lo, hi |-> proc[x.p].hi]]
       ELSE UNCHANGED cpu                  \* a failed probe leaves no trace
    /\ UNCHANGED <<proc, now>>

\* memory of process p as asked for (a request that is not made is -1)
Memory(p, ok, virt, shr, res) ==
    /\ IF virt = -1 /\ shr = -1 /\ res = -1 THEN ok
       ELSE /\ ok = Is1(p)
            /\ ok => /\ virt \in {-1, proc[p].virt} /\ shr \in {-1, proc[p].shr} /\ res \in {-1, proc[p].res}
    /\ UNCHANGED uvars
==============================================================================
