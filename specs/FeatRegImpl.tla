----------------------------- MODULE FeatRegImpl -----------------------------
(* The register: how the identifier is checked and handed out.  Locked: under *)
(* one mutex; FALSE: the check and the assignment can be interleaved.         *)
EXTENDS FeatReg
CONSTANTS P, C, Calls, Locked
VARIABLES pc, id, cnt, lock, res, done
iv == <<fid, won, asks, tab, gone, closing, was, pc, id, cnt, lock, res, done>>
IInit == FInit /\ pc = [p \in P |-> "out"] /\ id = [c \in C |-> -1] /\ cnt = 0 /\ lock = 0 /\ res = [p \in P |-> << >>] /\ done = [p \in P |-> 0]
Enter(p) == /\ pc[p] = "out" /\ done[p] < Calls /\ \E c \in C : RegInv(p, c)
            /\ pc' = [pc EXCEPT ![p] = "lock"] /\ UNCHANGED <<id, cnt, lock, res, done>>
Lock(p) == /\ pc[p] = "lock" /\ (Locked => lock = 0) /\ lock' = IF Locked THEN p ELSE lock
           /\ pc' = [pc EXCEPT ![p] = "check"] /\ UNCHANGED <<fid, won, asks, tab, gone, closing, was, id, cnt, res, done>>
Check(p) == LET c == asks[p] IN
            /\ pc[p] = "check"
            /\ IF id[c] # -1 THEN res' = [res EXCEPT ![p] = <<FALSE, id[c]>>] /\ pc' = [pc EXCEPT ![p] = "unlock"]
               ELSE IF cnt = Room THEN res' = [res EXCEPT ![p] = <<FALSE, -1>>] /\ pc' = [pc EXCEPT ![p] = "unlock"]
               ELSE pc' = [pc EXCEPT ![p] = "give"] /\ UNCHANGED res
            /\ UNCHANGED <<fid, won, asks, tab, gone, closing, was, id, cnt, lock, done>>
Give(p) == /\ pc[p] = "give" /\ id' = [id EXCEPT ![asks[p]] = cnt] /\ cnt' = cnt + 1 /\ res' = [res EXCEPT ![p] = <<TRUE, cnt>>]
           /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED <<fid, won, asks, tab, gone, closing, was, lock, done>>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = (IF Locked THEN 0 ELSE lock) /\ pc' = [pc EXCEPT ![p] = "got"]
             /\ UNCHANGED <<fid, won, asks, tab, gone, closing, was, id, cnt, res, done>>
Leave(p) == /\ pc[p] = "got" /\ RegRet(p, res[p][1], res[p][2]) /\ pc' = [pc EXCEPT ![p] = "out"]
            /\ done' = [done EXCEPT ![p] = @ + 1] /\ UNCHANGED <<id, cnt, lock, res>>
INext == \E p \in P : Enter(p) \/ Lock(p) \/ Check(p) \/ Give(p) \/ Unlock(p) \/ Leave(p)
ISpec == IInit /\ [][INext]_iv
Allowed == \A p \in P : pc[p] = "got" => MayReturn(p, res[p][1], res[p][2])
InTheEnd == asks = << >> => Settled
=============================================================================
