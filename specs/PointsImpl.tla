------------------------------ MODULE PointsImpl ------------------------------
(* Cached trace points of C code: the first time a thread comes past a       *)
(* static trace point it announces the label on its timeline.  The label and *)
(* the timeline are handed to the once-function through one shared slot.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS P, Sites, Rounds,
          LOCKED,     \* the slot is held until the once-function is through
          ONCE        \* "thread": once per thread and site; "process": once per site
VARIABLES pc, site, rounds, lock, slot, past, stream, began
v == <<pc, site, rounds, lock, slot, past, stream, began>>
Init == /\ pc = [p \in P |-> "out"] /\ site = [p \in P |-> CHOOSE s \in Sites : TRUE] /\ rounds = [p \in P |-> 0]
        /\ lock = "free" /\ slot = [tl |-> "none", lab |-> "none"] /\ past = {} /\ stream = [p \in P |-> << >>] /\ began = [p \in P |-> {}]
Go(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]
Begin(p) == /\ Go(p, "out", "enter") /\ rounds[p] < Rounds /\ rounds' = [rounds EXCEPT ![p] = @ + 1]
            /\ \E s \in Sites : site' = [site EXCEPT ![p] = s] /\ began' = [began EXCEPT ![p] = @ \cup {s}]
            /\ UNCHANGED <<lock, slot, past, stream>>
Enter(p) == /\ Go(p, "enter", "slot") /\ (LOCKED => lock = "free") /\ lock' = (IF LOCKED THEN p ELSE lock)
            /\ slot' = [slot EXCEPT !.tl = p] /\ UNCHANGED <<site, rounds, past, stream, began>>
Slot(p) == Go(p, "slot", "once") /\ slot' = [slot EXCEPT !.lab = site[p]] /\ UNCHANGED <<site, rounds, lock, past, stream, began>>
Mark(p) == IF ONCE = "thread" THEN <<p, site[p]>> ELSE <<"all", site[p]>>
Once(p) == /\ Go(p, "once", "leave") /\ past' = past \cup {Mark(p)}
           /\ stream' = IF Mark(p) \in past THEN stream ELSE [stream EXCEPT ![slot.tl] = Append(@, <<"map", slot.lab>>)]
           /\ UNCHANGED <<site, rounds, lock, slot, began>>
Leave(p) == Go(p, "leave", "in") /\ lock' = (IF LOCKED THEN "free" ELSE lock) /\ UNCHANGED <<site, rounds, slot, past, stream, began>>
\* the scope ends
End(p) == Go(p, "in", "out") /\ stream' = [stream EXCEPT ![p] = Append(@, <<"use", site[p]>>)] /\ UNCHANGED <<site, rounds, lock, slot, past, began>>
Next == \E p \in P : Begin(p) \/ Enter(p) \/ Slot(p) \/ Once(p) \/ Leave(p) \/ End(p)
Spec == Init /\ [][Next]_v
Named == \A p \in P : \A i \in 1..Len(stream[p]) : stream[p][i][1] = "use" => \E j \in 1..i - 1 : stream[p][j] = <<"map", stream[p][i][2]>>
Mine == \A p \in P : \A i \in 1..Len(stream[p]) : stream[p][i][2] \in began[p]
OnlyOnce == \A p \in P : \A i, j \in 1..Len(stream[p]) : stream[p][i][1] = "map" /\ stream[p][i] = stream[p][j] => i = j
=============================================================================
