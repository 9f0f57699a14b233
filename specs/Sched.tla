-------------------------------- MODULE Sched ---------------------------------
(* The task scheduler.  A live task has a period, a mode and the interval    *)
(* [lo, hi] in which it becomes due (the clock may move while a task runs).  *)
EXTENDS Integers, FiniteSets
VARIABLES
    live,     \* live[id]: [period, mode, lo, hi]
    ids,      \* identifiers handed out so far
    ticking,  \* a tick is under way
    must,     \* tasks that have to run in this tick
    ran,      \* tasks that ran in this tick
    running   \* the task whose callback is under way, -1 none
scvars == <<live, ids, ticking, must, ran, running>>
SchInit == live = << >> /\ ids = {} /\ ticking = FALSE /\ must = {} /\ ran = {} /\ running = -1
SchReset == live' = << >> /\ ids' = {} /\ ticking' = FALSE /\ must' = {} /\ ran' = {} /\ running' = -1
PutTask(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropTask(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* now: the clock when the call begins and when it has returned
Schedule(id, mode, period, t0, t1) ==
    /\ id >= 0 /\ id \notin ids
    /\ ids' = ids \cup {id}
    /\ live' = PutTask(live, id, [period |-> period, mode |-> mode, lo |-> t0 + period, hi |-> t1 + period])
    /\ UNCHANGED <<ticking, must, ran, running>>
RemoveTask(id, ok) ==
    /\ ok = (id \in DOMAIN live)
    /\ live' = IF ok THEN DropTask(live, id) ELSE live
    /\ must' = must \ {id}
    /\ UNCHANGED <<ids, ticking, ran, running>>
TickBegin(now) ==
    /\ ~ticking /\ ticking' = TRUE
    /\ must' = {x \in DOMAIN live : live[x].hi <= now} /\ ran' = {}
    /\ UNCHANGED <<live, ids, running>>
RunTask(id, now) ==
    /\ ticking /\ running = -1
    /\ id \in DOMAIN live /\ id \notin ran
    /\ live[id].lo <= now
    /\ running' = id /\ ran' = ran \cup {id} /\ must' = must \ {id}
    /\ UNCHANGED <<live, ids, ticking>>
\* t0, t1: the clock when the run began and when it is over
RunEnds(id, again, t0, t1) ==
    /\ running = id /\ running' = -1
    /\ live' = CASE id \notin DOMAIN live -> live
                 [] ~again -> DropTask(live, id)
                 [] live[id].mode = "keep" -> [live EXCEPT ![id].lo = @ + live[id].period, ![id].hi = @ + live[id].period]
                 [] OTHER -> [live EXCEPT ![id].lo = t0 + live[id].period, ![id].hi = t1 + live[id].period]
    /\ UNCHANGED <<ids, ticking, must, ran>>
TickEnd == ticking /\ running = -1 /\ must = {} /\ ticking' = FALSE /\ UNCHANGED <<live, ids, must, ran, running>>
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
RECURSIVE GcdOf(_)
GcdOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN GCD(x, GcdOf(S \ {x}))
Optimal == GcdOf({live[x].period : x \in DOMAIN live} \ {0})
=============================================================================
