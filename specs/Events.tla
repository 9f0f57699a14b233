-------------------------------- MODULE Events --------------------------------
(* Event objects on the reader's side are values: copying, moving, assigning *)
(* and merging act as on mathematical values, an event held in one handle    *)
(* never changes because of another.  An event is a class name and a         *)
(* function from field names to values; a value is a kind t, its text v and  *)
(* for nested events <<event>>.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Unset == "18446744073709551615"
Header == "HT_Event"
Empty(kn) == [kn |-> kn, f |-> << >>, ts |-> Unset]
Val(t, v, sub) == [t |-> t, v |-> v, sub |-> sub]
\* the time is that of the field "timestamp", otherwise unset
Timed(e, f) == IF "timestamp" \in DOMAIN f \ DOMAIN e.f THEN f["timestamp"].v ELSE e.ts
With(e, n, x) == [e EXCEPT !.f = (n :> x) @@ @, !.ts = Timed(e, (n :> x))]
\* fields the event has already stay; the time of a header is the time of the event it is merged into,
\* whatever other field of that name there may be
Merged(e, o) == [e EXCEPT !.f = @ @@ o.f, !.ts = IF o.kn = Header THEN o.ts ELSE Timed(e, o.f)]
RECURSIVE Edited(_, _, _, _)
Edited(e, path, n, v) ==
    IF path = << >> THEN [e EXCEPT !.f[n].v = v]
    ELSE [e EXCEPT !.f[path[1]].sub = <<Edited(e.f[path[1]].sub[1], Tail(path), n, v)>>]

VARIABLE hold      \* handle -> event
Put(h, e) == hold' = (h :> e) @@ hold
Gone(S) == [x \in DOMAIN hold \ S |-> hold[x]]
EvNew(h, kn) == Put(h, Empty(kn))
EvSet(h, n, t, v, from) == /\ n \notin DOMAIN hold[h].f
                           /\ Put(h, With(hold[h], n, Val(t, v, IF from = << >> THEN << >> ELSE <<hold[from[1]]>>)))
EvCopy(h, a) == Put(h, hold[a])
EvMove(h, a) == hold' = (h :> hold[a]) @@ Gone({a})
EvMerge(h, a) == Put(h, Merged(hold[h], hold[a]))
EvMergeMove(h, a) == hold' = (h :> Merged(hold[h], hold[a])) @@ Gone({a, h})
EvPoke(h, path, n, v) == Put(h, Edited(hold[h], path, n, v))
EvDrop(h) == hold' = Gone({h})

\* ----------------------------------------------------------------- classes
\* k: number of the class; classes[k]: its fields in the order they were added,
\* a name added again changes nothing
RECURSIVE Kept(_, _)
Kept(fs, j) == IF j > Len(fs) THEN << >>
    ELSE IF \E i \in 1..j - 1 : fs[i].n = fs[j].n THEN Kept(fs, j + 1) ELSE <<fs[j]>> \o Kept(fs, j + 1)
RECURSIVE Found(_, _, _)
Found(classes, k, n) ==           \* fields of that name, however deep
    LET fs == Kept(classes[k], 1) IN
    UNION {(IF fs[j].n = n THEN {[n |-> n, ty |-> fs[j].ty]} ELSE {}) \cup (IF fs[j].sub # 0 THEN Found(classes, fs[j].sub, n) ELSE {}) : j \in 1..Len(fs)}
Direct(classes, k, n) == {[n |-> n, ty |-> x.ty] : x \in {y \in {Kept(classes[k], 1)[j] : j \in 1..Len(Kept(classes[k], 1))} : y.n = n}}
=============================================================================
