------------------------------ MODULE LabelsImpl ------------------------------
(* Announcing labels: look up, insert and announce under one lock, then use. *)
(* Labels a and b have the same hash.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS P, Rounds,
    AnnounceLocked,   \* the announcement is pushed before the lock is released
    CompareText,      \* an equal hash is not taken for an equal label
    Locked            \* there is a lock at all
L == {"a", "b", "c"}
Hash(x) == IF x = "c" THEN 20 ELSE 10
VARIABLES pc, lab, ident, rounds, lock, table, stream, known
\* table: identifier -> text; stream: what the listeners see; known: label -> identifier returned
v == <<pc, lab, ident, rounds, lock, table, stream, known>>
Init == /\ pc = [p \in P |-> "out"] /\ lab = [p \in P |-> "c"] /\ ident = [p \in P |-> 0] /\ rounds = [p \in P |-> 0]
        /\ lock = "free" /\ table = << >> /\ stream = << >> /\ known = {}
Call(p) == /\ pc[p] = "out" /\ rounds[p] < Rounds /\ rounds' = [rounds EXCEPT ![p] = @ + 1]
           /\ \E x \in L : lab' = [lab EXCEPT ![p] = x]
           /\ pc' = [pc EXCEPT ![p] = "lock"] /\ UNCHANGED <<ident, lock, table, stream, known>>
Lock(p) == /\ pc[p] = "lock" /\ (Locked => lock = "free") /\ lock' = (IF Locked THEN p ELSE lock) /\ pc' = [pc EXCEPT ![p] = "look"]
           /\ UNCHANGED <<lab, ident, rounds, table, stream, known>>
Find(x) == IF CompareText THEN CHOOSE i \in 10..40 : (i >= Hash(x) /\ (i \notin DOMAIN table \/ table[i] = x)) /\ \A j \in Hash(x)..(i - 1) : j \in DOMAIN table /\ table[j] # x
           ELSE Hash(x)
Look(p) == /\ pc[p] = "look"
           /\ LET i == Find(lab[p]) IN
                /\ ident' = [ident EXCEPT ![p] = i]
                /\ pc' = [pc EXCEPT ![p] = IF i \in DOMAIN table THEN "unlock" ELSE "insert"]
           /\ UNCHANGED <<lab, rounds, lock, table, stream, known>>
Insert(p) == /\ pc[p] = "insert"
             /\ table' = [j \in DOMAIN table \cup {ident[p]} |-> IF j = ident[p] THEN lab[p] ELSE table[j]]
             /\ pc' = [pc EXCEPT ![p] = IF AnnounceLocked THEN "announce" ELSE "unlock-announce"]
             /\ UNCHANGED <<lab, ident, rounds, lock, stream, known>>
Announce(p) == /\ pc[p] \in {"announce", "late"} /\ stream' = Append(stream, <<"map", ident[p], lab[p]>>)
               /\ pc' = [pc EXCEPT ![p] = IF pc[p] = "late" THEN "use" ELSE "unlock"]
               /\ UNCHANGED <<lab, ident, rounds, lock, table, known>>
Unlock(p) == /\ pc[p] \in {"unlock", "unlock-announce"} /\ lock' = (IF Locked THEN "free" ELSE lock)
             /\ pc' = [pc EXCEPT ![p] = IF pc[p] = "unlock" THEN "use" ELSE "late"]
             /\ UNCHANGED <<lab, ident, rounds, table, stream, known>>
Use(p) == /\ pc[p] = "use" /\ stream' = Append(stream, <<"use", ident[p], lab[p]>>) /\ known' = known \cup {<<lab[p], ident[p]>>}
          /\ pc' = [pc EXCEPT ![p] = "out"] /\ UNCHANGED <<lab, ident, rounds, lock, table>>
Next == \E p \in P : Call(p) \/ Lock(p) \/ Look(p) \/ Insert(p) \/ Announce(p) \/ Unlock(p) \/ Use(p)
Spec == Init /\ [][Next]_v
AnnouncedFirst == \A i \in 1..Len(stream) : stream[i][1] = "use" => \E j \in 1..(i - 1) : stream[j] = <<"map", stream[i][2], stream[i][3]>>
Once == \A i, j \in 1..Len(stream) : stream[i][1] = "map" /\ stream[i] = stream[j] => i = j
SameAndDistinct == \A a, b \in known : (a[1] = b[1]) <=> (a[2] = b[2])
=============================================================================
