----------------------------- MODULE HeaderOrder -----------------------------
(* The order of the headers in the amalgamated one.  For every include       *)
(* relation without cycles and every order of the directory's entries: each  *)
(* header comes once, after those it includes; the header that turns         *)
(* declarations of event classes into definitions (Last) comes after all     *)
(* others, unless (KeepLast = FALSE) only inclusion counts.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, KeepLast
H == 1..N
Last == 1
VARIABLES scan, inc, left, out
hv == <<scan, inc, left, out>>
Perms == {p \in [H -> H] : \A i, j \in H : i # j => p[i] # p[j]}
\* no cycles: there is a numbering in which each header includes only earlier ones; nothing includes Last
HInit == /\ scan \in Perms
         /\ \E p \in Perms : inc \in SUBSET {q \in H \X (H \ {Last}) : p[q[1]] > p[q[2]]}
         /\ left = H /\ out = << >>
Needs(h) == {k \in left : <<h, k>> \in inc} \cup (IF KeepLast /\ h = Last THEN left \ {Last} ELSE {})
First(S) == scan[CHOOSE i \in H : scan[i] \in S /\ \A j \in 1..(i - 1) : scan[j] \notin S]
Take == LET free == {h \in left : Needs(h) = {}} IN
        /\ free # {}
        /\ out' = Append(out, First(free)) /\ left' = left \ {First(free)} /\ UNCHANGED <<scan, inc>>
HSpec == HInit /\ [][Take]_hv /\ WF_hv(Take)
Pos(h) == CHOOSE i \in 1..Len(out) : out[i] = h
Once == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
AfterIncluded == \A q \in inc : q[1] \in H \ left => (q[2] \in H \ left /\ Pos(q[2]) < Pos(q[1]))
DeclaredOnly == Last \in H \ left => left = {}
NeverStuck == left # {} => \E h \in left : Needs(h) = {}
=============================================================================
