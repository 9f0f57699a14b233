------------------------------ MODULE TraceEvents -----------------------------
(* Histories of real reader-side events, against Events.                     *)
EXTENDS TraceBase, Events
vars == <<l, hold>>
Init == l = 1 /\ hold = << >>
Case == Is("Case") /\ Step /\ hold' = << >>

Elems(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE IsEv(_, _)
IsVal(r, x) == r.t = x.t /\ r.v = x.v /\ Len(r.sub) = Len(x.sub) /\ (x.sub # << >> => IsEv(r.sub[1], x.sub[1]))
IsEv(r, e) ==
    /\ r.kn = e.kn /\ r.ts = e.ts
    /\ \A fs \in {r.f, r.has} :
         /\ Len(fs) = Cardinality(DOMAIN e.f)
         /\ {x.n : x \in Elems(fs)} = DOMAIN e.f
         /\ \A j \in 1..Len(fs) : IsVal(fs[j], e.f[fs[j].n])
AllRight == ({x.h : x \in Elems(ev.all)} = DOMAIN hold' /\ \A x \in Elems(ev.all) : IsEv(x.ev, hold'[x.h])) = TRUE

New == Is("New") /\ Step /\ EvNew(ev.h, ev.kn) /\ AllRight
Set == Is("Set") /\ Step /\ EvSet(ev.h, ev.n, ev.t, ev.v, ev.from) /\ AllRight
Copy == (Is("Copy") \/ Is("Assign")) /\ Step /\ EvCopy(ev.h, ev.from) /\ AllRight
Move == (Is("Move") \/ Is("MoveAssign")) /\ Step /\ EvMove(ev.h, ev.from) /\ AllRight
Merge == Is("Merge") /\ Step /\ EvMerge(ev.h, ev.from) /\ AllRight
MergeMove == Is("MergeMove") /\ Step /\ EvMergeMove(ev.h, ev.from) /\ AllRight
Poke == Is("Poke") /\ Step /\ EvPoke(ev.h, ev.path, ev.n, ev.v) /\ AllRight
Dropped == Is("Drop") /\ Step /\ EvDrop(ev.h) /\ AllRight
\* everything the history allocated is back
Ended == Is("End") /\ Step /\ ev.left = 0 /\ UNCHANGED hold

Lookup == Is("Lookup") /\ Step /\ UNCHANGED hold
    /\ \A k \in 1..Len(ev.added) :
         LET fs == Kept(ev.added[k], 1) IN
         /\ Len(ev.all[k]) = Len(fs)
         /\ \A j \in 1..Len(fs) : ev.all[k][j].n = fs[j].n /\ ev.all[k][j].ty = fs[j].ty
    /\ (\A g \in Elems(ev.got) :
         LET may == IF g.rec THEN Found(ev.added, g.k, g.n) ELSE Direct(ev.added, g.k, g.n) IN
         IF may = {} THEN g.res = << >> ELSE Len(g.res) = 1 /\ g.res[1] \in may) = TRUE
Next == Case \/ New \/ Set \/ Copy \/ Move \/ Merge \/ MergeMove \/ Poke \/ Dropped \/ Ended \/ Lookup
Spec == Init /\ [][Next]_vars
=============================================================================
