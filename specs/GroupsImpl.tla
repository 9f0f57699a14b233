------------------------------ MODULE GroupsImpl ------------------------------
(* How listener groups are kept: a registry of named containers, reference   *)
(* counts, one reference per timeline and one of the registry.               *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS P, Names, Rounds,
    AtomicFind,     \* look up and insert in one critical section
    AtomicUnref     \* decrement and test in one critical section
VARIABLES pc, nm, cont, tmp, rounds, reg, ref, freed, next, down
ivars == <<pc, nm, cont, tmp, rounds, reg, ref, freed, next, down>>
\* containers are 1, 2, ...; reg: name -> container or 0; ref, freed: container -> count
Max == Cardinality(P) * Rounds
IInit == /\ pc = [p \in P |-> "idle"] /\ nm = [p \in P |-> CHOOSE n \in Names : TRUE] /\ cont = [p \in P |-> 0] /\ tmp = [p \in P |-> 0]
         /\ rounds = [p \in P |-> 0] /\ reg = [n \in Names |-> 0] /\ ref = [c \in 1..Max |-> 0] /\ freed = [c \in 1..Max |-> 0]
         /\ next = 1 /\ down = FALSE
Start(p) == /\ pc[p] = "idle" /\ rounds[p] < Rounds /\ ~down
            /\ \E n \in Names : nm' = [nm EXCEPT ![p] = n]
            /\ pc' = [pc EXCEPT ![p] = "find"] /\ rounds' = [rounds EXCEPT ![p] = @ + 1]
            /\ UNCHANGED <<cont, tmp, reg, ref, freed, next, down>>
Insert(p, n) == /\ cont' = [cont EXCEPT ![p] = next] /\ reg' = [reg EXCEPT ![n] = next] /\ ref' = [ref EXCEPT ![next] = 2] /\ next' = next + 1
Share(p, n) == /\ cont' = [cont EXCEPT ![p] = reg[n]] /\ ref' = [ref EXCEPT ![reg[n]] = @ + 1] /\ UNCHANGED <<reg, next>>
Find(p) == /\ pc[p] = "find"
           /\ IF AtomicFind \/ reg[nm[p]] # 0
              THEN /\ IF reg[nm[p]] = 0 THEN Insert(p, nm[p]) ELSE Share(p, nm[p])
                   /\ pc' = [pc EXCEPT ![p] = "use"]
              ELSE pc' = [pc EXCEPT ![p] = "insert"] /\ UNCHANGED <<cont, reg, ref, next>>
           /\ UNCHANGED <<nm, tmp, rounds, freed, down>>
Late(p) == pc[p] = "insert" /\ Insert(p, nm[p]) /\ pc' = [pc EXCEPT ![p] = "use"] /\ UNCHANGED <<nm, tmp, rounds, freed, down>>
Use(p) == pc[p] = "use" /\ pc' = [pc EXCEPT ![p] = "unref"] /\ UNCHANGED <<nm, cont, tmp, rounds, reg, ref, freed, next, down>>
Dec(c) == /\ ref' = [ref EXCEPT ![c] = @ - 1] /\ freed' = [freed EXCEPT ![c] = IF ref[c] = 1 THEN @ + 1 ELSE @]
Unref(p) == /\ pc[p] = "unref"
            /\ IF AtomicUnref THEN Dec(cont[p]) /\ tmp' = tmp /\ pc' = [pc EXCEPT ![p] = "idle"]
               ELSE /\ tmp' = [tmp EXCEPT ![p] = ref[cont[p]]] /\ pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<ref, freed>>
            /\ UNCHANGED <<nm, cont, rounds, reg, next, down>>
Write(p) == /\ pc[p] = "write" /\ pc' = [pc EXCEPT ![p] = "idle"]
            /\ ref' = [ref EXCEPT ![cont[p]] = tmp[p] - 1] /\ freed' = [freed EXCEPT ![cont[p]] = IF tmp[p] = 1 THEN @ + 1 ELSE @]
            /\ UNCHANGED <<nm, cont, tmp, rounds, reg, next, down>>
\* deinit does not overlap creations
Deinit == /\ ~down /\ \A p \in P : pc[p] \notin {"find", "insert"}
          /\ down' = TRUE /\ reg' = [n \in Names |-> 0]
          /\ LET R == {reg[n] : n \in Names} \ {0} IN
               /\ ref' = [c \in 1..Max |-> IF c \in R THEN ref[c] - 1 ELSE ref[c]]
               /\ freed' = [c \in 1..Max |-> IF c \in R /\ ref[c] = 1 THEN freed[c] + 1 ELSE freed[c]]
          /\ UNCHANGED <<pc, nm, cont, tmp, rounds, next>>
INext == Deinit \/ \E p \in P : Start(p) \/ Find(p) \/ Late(p) \/ Use(p) \/ Unref(p) \/ Write(p)
ISpec == IInit /\ [][INext]_ivars
OnePerName == ~down => \A p, q \in P : pc[p] = "use" /\ pc[q] = "use" /\ nm[p] = nm[q] => cont[p] = cont[q]
NoUseAfterFree == \A p \in P : pc[p] \in {"use", "unref", "write"} => freed[cont[p]] = 0
FreedOnce == \A c \in 1..Max : freed[c] <= 1
NothingLeft == down /\ (\A p \in P : pc[p] = "idle") => \A c \in 1..(next - 1) : freed[c] = 1
=============================================================================
