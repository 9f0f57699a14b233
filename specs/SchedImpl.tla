------------------------------ MODULE SchedImpl -------------------------------
(* The list of tasks behind Sched: an array that is visited by index, from   *)
(* which an entry is taken out by moving the last one into its place.        *)
(* Callbacks may schedule, remove (themselves too) and take time.            *)
(*   Defer: what a callback removes is only marked and swept after the tick  *)
(*   Step back: after taking out an entry the index is visited again         *)
EXTENDS Sched, Sequences, TLC
CONSTANTS MaxTasks, MaxNow, Periods, Defer, StepBack, EndMarks
VARIABLES lst, now, pc, i, t0
iv == <<live, ids, ticking, must, ran, running, lst, now, pc, i, t0>>
None == -2
IInit == SchInit /\ lst = << >> /\ now = 0 /\ pc = "idle" /\ i = 0 /\ t0 = 0
TakeOut(s, k) == LET last == Len(s) IN [x \in 1..(last - 1) |-> IF x = k THEN s[last] ELSE s[x]]
Outside == pc = "idle" \/ pc = "cb"
NewTask == /\ Outside /\ Cardinality(ids) < MaxTasks
           /\ \E p \in Periods, m \in {"keep", "restart"} : LET id == Cardinality(ids) IN
                 /\ Schedule(id, m, p, now, now)
                 /\ lst' = Append(lst, [id |-> id, period |-> p, mode |-> m, due |-> now + p])
           /\ UNCHANGED <<now, pc, i, t0>>
Del == /\ Outside
       /\ \E id \in ids : LET at == {k \in 1..Len(lst) : lst[k].id = id} IN
             /\ RemoveTask(id, at # {})
             /\ lst' = IF at = {} THEN lst
                       ELSE LET k == CHOOSE k \in at : TRUE IN
                            IF pc = "cb" /\ Defer THEN [lst EXCEPT ![k].id = None] ELSE TakeOut(lst, k)
       /\ UNCHANGED <<now, pc, i, t0>>
Time == Outside /\ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<scvars, lst, pc, i, t0>>
Begin == pc = "idle" /\ TickBegin(now) /\ pc' = "loop" /\ i' = 1 /\ UNCHANGED <<lst, now, t0>>
Visit == /\ pc = "loop" /\ i <= Len(lst)
         /\ IF lst[i].id = None \/ lst[i].due > now
            THEN i' = i + 1 /\ UNCHANGED <<scvars, lst, now, pc, t0>>
            ELSE RunTask(lst[i].id, now) /\ pc' = "cb" /\ t0' = now /\ UNCHANGED <<lst, now, i>>
Back == /\ pc = "cb"
        /\ \E again \in BOOLEAN :
              /\ RunEnds(running, again, t0, now)
              /\ IF i > Len(lst) THEN lst' = lst /\ i' = i + 1
                 ELSE IF ~again
                 THEN IF EndMarks THEN lst' = [lst EXCEPT ![i].id = None] /\ i' = i + 1
                      ELSE lst' = TakeOut(lst, i) /\ i' = (IF StepBack THEN i ELSE i + 1)
                 ELSE /\ lst' = [lst EXCEPT ![i].due = IF lst[i].mode = "keep" THEN @ + lst[i].period ELSE now + lst[i].period]
                      /\ i' = i + 1
        /\ pc' = "loop" /\ UNCHANGED <<now, t0>>
RECURSIVE Sweep(_, _)
Sweep(s, k) == IF k > Len(s) THEN s ELSE IF s[k].id = None THEN Sweep(TakeOut(s, k), k) ELSE Sweep(s, k + 1)
End == pc = "loop" /\ i > Len(lst) /\ TickEnd /\ lst' = Sweep(lst, 1) /\ pc' = "idle" /\ i' = 0 /\ UNCHANGED <<now, t0>>
INext == NewTask \/ Del \/ Time \/ Begin \/ Visit \/ Back \/ End
ISpec == IInit /\ [][INext]_iv
\* a visit that the specification refuses (not due, ran already, gone) or an end that forgot somebody
VisitFits == pc = "loop" /\ i <= Len(lst) => lst[i].id = None \/ lst[i].due > now \/ (lst[i].id \in DOMAIN live /\ lst[i].id \notin ran /\ live[lst[i].id].lo <= now)
EndFits == pc = "loop" /\ i > Len(lst) => must = {}
SameTasks == pc # "cb" => {lst[k].id : k \in 1..Len(lst)} \ {None} = DOMAIN live
             /\ \A k \in 1..Len(lst) : lst[k].id # None => lst[k].due \in live[lst[k].id].lo..live[lst[k].id].hi
Swept == pc = "idle" => Len(lst) = Cardinality(DOMAIN live)
=============================================================================
