------------------------------ MODULE EventsImpl ------------------------------
(* Events as the reader keeps them: a handle owns cells (texts, nested       *)
(* events), every value points to the field of a class, and the event keeps  *)
(* alive its class and those of merged events; the class register may go     *)
(* away while events are held.  Refines Events: every handle's view is the   *)
(* value an ideal event would have.                                          *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Handles, Names, Klasses, Cells, Texts,
          ASSIGN,    \* "swap": copy and swap; "drop": old values are forgotten
          MERGE,     \* "skip": values already there stay with the source; "lose": they are forgotten; "share": the source keeps what it gave
          HOLD       \* TRUE: the classes of merged events are kept alive
VARIABLES ev,        \* handle -> [k: class, keep: classes, m: name -> [c: cell, k: class of the field]]
          cell,      \* live cell -> text
          reg,       \* the register is alive
          hold       \* the ideal events: handle -> [f: name -> text]
vars == <<ev, cell, reg, hold>>
Init == ev = << >> /\ cell = << >> /\ reg = TRUE /\ hold = << >>
Free == Cells \ DOMAIN cell
Less(f, S) == [x \in DOMAIN f \ S |-> f[x]]
View(h) == [n \in DOMAIN ev[h].m |-> cell[ev[h].m[n].c]]
\* n pairwise different free cells, one per name: the smallest ones (symmetry)
Fresh(S) == CHOOSE g \in [S -> Free] : \A x, y \in S : x # y => g[x] # g[y]
Enough(S) == Cardinality(S) <= Cardinality(Free)
New == \E h \in Handles \ DOMAIN ev, k \in Klasses :
    /\ ev' = (h :> [k |-> k, keep |-> {k}, m |-> << >>]) @@ ev
    /\ hold' = (h :> << >>) @@ hold /\ UNCHANGED <<cell, reg>>
Set == \E h \in DOMAIN ev, n \in Names, t \in Texts :
    /\ n \notin DOMAIN ev[h].m /\ Free # {}
    /\ LET c == CHOOSE x \in Free : TRUE IN
       /\ cell' = (c :> t) @@ cell
       /\ ev' = [ev EXCEPT ![h].m = (n :> [c |-> c, k |-> ev[h].k]) @@ @]
    /\ hold' = [hold EXCEPT ![h] = (n :> t) @@ @] /\ UNCHANGED reg
CopyOf(h, g) == [ev[h] EXCEPT !.m = [n \in DOMAIN ev[h].m |-> [ev[h].m[n] EXCEPT !.c = g[n]]]]
CellsOf(h) == {ev[h].m[n].c : n \in DOMAIN ev[h].m}
NewCells(h, g) == [c \in {g[n] : n \in DOMAIN ev[h].m} |-> cell[ev[h].m[CHOOSE n \in DOMAIN ev[h].m : g[n] = c].c]]
Copy == \E h \in DOMAIN ev, j \in Handles \ DOMAIN ev :
    /\ Enough(DOMAIN ev[h].m)
    /\ LET g == Fresh(DOMAIN ev[h].m) IN ev' = (j :> CopyOf(h, g)) @@ ev /\ cell' = NewCells(h, g) @@ cell
    /\ hold' = (j :> hold[h]) @@ hold /\ UNCHANGED reg
Assign == \E h, j \in DOMAIN ev :
    /\ Enough(DOMAIN ev[h].m)
    /\ LET g == Fresh(DOMAIN ev[h].m)
           all == NewCells(h, g) @@ cell
       IN ev' = (j :> CopyOf(h, g)) @@ ev /\ cell' = IF ASSIGN = "swap" THEN Less(all, CellsOf(j)) ELSE all
    /\ hold' = [hold EXCEPT ![j] = hold[h]] /\ UNCHANGED reg
Move == \E h \in DOMAIN ev, j \in Handles \ DOMAIN ev :
    /\ ev' = (j :> ev[h]) @@ Less(ev, {h}) /\ hold' = (j :> hold[h]) @@ Less(hold, {h}) /\ UNCHANGED <<cell, reg>>
\* h, given up by the caller, is merged into j
Merge == \E h, j \in DOMAIN ev : h # j /\
    LET dup == DOMAIN ev[h].m \cap DOMAIN ev[j].m
        m2 == ev[j].m @@ ev[h].m
        gone == CASE MERGE = "skip" -> {ev[h].m[n].c : n \in dup} [] MERGE = "lose" -> {} [] OTHER -> CellsOf(h)
    IN /\ ev' = [Less(ev, {h}) EXCEPT ![j].m = m2, ![j].keep = IF HOLD THEN @ \cup ev[h].keep ELSE @]
       /\ cell' = Less(cell, gone)
       /\ hold' = [Less(hold, {h}) EXCEPT ![j] = @ @@ hold[h]] /\ UNCHANGED reg
Poke == \E h \in DOMAIN ev : \E n \in DOMAIN ev[h].m, t \in Texts :
    /\ cell' = [cell EXCEPT ![ev[h].m[n].c] = t]
    /\ hold' = [hold EXCEPT ![h][n] = t] /\ UNCHANGED <<ev, reg>>
Destroy == \E h \in DOMAIN ev : ev' = Less(ev, {h}) /\ cell' = Less(cell, CellsOf(h)) /\ hold' = Less(hold, {h}) /\ UNCHANGED reg
RegisterGone == reg /\ reg' = FALSE /\ UNCHANGED <<ev, cell, hold>>
Next == New \/ Set \/ Copy \/ Assign \/ Move \/ Merge \/ Poke \/ Destroy \/ RegisterGone
Spec == Init /\ [][Next]_vars
Pairs == {<<h, n>> : h \in DOMAIN ev, n \in Names}
Live == {p \in Pairs : p[2] \in DOMAIN ev[p[1]].m}
NoDangling == \A p \in Live : ev[p[1]].m[p[2]].c \in DOMAIN cell
NoSharing == \A p, q \in Live : p # q => ev[p[1]].m[p[2]].c # ev[q[1]].m[q[2]].c
NoLeak == DOMAIN cell = {ev[p[1]].m[p[2]].c : p \in Live}
FieldsAlive == \A p \in Live : reg \/ ev[p[1]].m[p[2]].k \in ev[p[1]].keep
Values == (\A p \in Live : ev[p[1]].m[p[2]].c \in DOMAIN cell) => \A h \in DOMAIN ev : View(h) = hold[h]
=============================================================================
