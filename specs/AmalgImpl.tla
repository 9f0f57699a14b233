------------------------------ MODULE AmalgImpl ------------------------------
(* How the runs write: into a file of their own that then takes the place of *)
(* the old one (Atomic), or into the file itself, whose old content is gone  *)
(* at once and whose new content arrives piece by piece, from a position of  *)
(* each writer's own.  Runs overlap, and are killed, anywhere.               *)
EXTENDS Amalg, Sequences
CONSTANTS R, Atomic, Pieces
VARIABLES pc,      \* run -> how far it is: <<file number, pieces written>>
          buf,     \* run -> the pieces of its own file
          disk     \* file -> sequence of pieces (the writer's name), << >> = empty, "no" = not there
iv == <<runs, lying, pc, buf, disk>>
Order(k) == <<"g", "h", IF runs[k].cpp THEN "x" ELSE "c">>
IInit == DInit /\ pc = [k \in R |-> <<0, 0>>] /\ buf = [k \in R |-> << >>] /\ disk = [f \in Names |-> <<"no">>]
On(k) == k \in DOMAIN runs /\ runs[k].st = "on"
Begin(k, cpp) == Start(k, cpp) /\ pc' = [pc EXCEPT ![k] = <<1, 0>>] /\ UNCHANGED <<buf, disk>>
\* piece number n lands at position n; what is there at other positions stays
Lay(old, n, k) == LET len == IF Len(old) > n THEN Len(old) ELSE n
                  IN [i \in 1..len |-> IF i = n THEN k ELSE IF i <= Len(old) THEN old[i] ELSE "hole"]
Open(k) == /\ On(k) /\ pc[k][1] \in 1..3 /\ pc[k][2] = 0
           /\ pc' = [pc EXCEPT ![k][2] = 1]
           /\ IF Atomic THEN buf' = [buf EXCEPT ![k] = << >>] /\ disk' = disk
              ELSE disk' = [disk EXCEPT ![Order(k)[pc[k][1]]] = << >>] /\ buf' = buf
           /\ UNCHANGED dvars
Write(k) == /\ On(k) /\ pc[k][1] \in 1..3 /\ pc[k][2] \in 1..Pieces
            /\ pc' = [pc EXCEPT ![k][2] = pc[k][2] + 1]
            /\ IF Atomic THEN buf' = [buf EXCEPT ![k] = Lay(buf[k], pc[k][2], k)] /\ disk' = disk
               ELSE disk' = [disk EXCEPT ![Order(k)[pc[k][1]]] = Lay(disk[Order(k)[pc[k][1]]], pc[k][2], k)] /\ buf' = buf
            /\ UNCHANGED dvars
Close(k) == /\ On(k) /\ pc[k][1] \in 1..3 /\ pc[k][2] = Pieces + 1
            /\ pc' = [pc EXCEPT ![k] = <<pc[k][1] + 1, 0>>]
            /\ disk' = IF Atomic THEN [disk EXCEPT ![Order(k)[pc[k][1]]] = buf[k]] ELSE disk
            /\ UNCHANGED <<buf, runs, lying>>
Finish(k) == On(k) /\ pc[k][1] = 4 /\ End(k, 0) /\ UNCHANGED <<pc, buf, disk>>
Die(k) == On(k) /\ Kill(k) /\ UNCHANGED <<pc, buf, disk>>
Whole(f) == \E k \in R : disk[f] = [i \in 1..Pieces |-> k]
Seen == [f \in Names |-> IF disk[f] = <<"no">> THEN "absent" ELSE IF Whole(f) THEN "whole" ELSE "broken"]
Look == See(Seen) /\ UNCHANGED <<pc, buf, disk>>
INext == (\E k \in R : Begin(k, TRUE) \/ Begin(k, FALSE) \/ Open(k) \/ Write(k) \/ Close(k) \/ Finish(k) \/ Die(k)) \/ Look
ISpec == IInit /\ [][INext]_iv
Allowed == \A f \in Names : OneFile(f, Seen)
Complete == (\A k \in R : k \in DOMAIN runs /\ runs[k].st = "done") => \A f \in Due : Seen[f] = "whole"
=============================================================================
