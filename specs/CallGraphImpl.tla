---------------------------- MODULE CallGraphImpl -----------------------------
(* How the converter builds the graph: scopes sorted by beginning (longer    *)
(* ones first), each attached by walking up from the node added last until   *)
(* an interval contains it; equal labels under one node are merged and take  *)
(* over the newer interval.  Checked against CallGraph for every properly    *)
(* nested family of MaxN scopes over the times 0..T.                         *)
EXTENDS CallGraph
CONSTANTS T, MaxN, Labels, LongFirst
VARIABLES sc, todo, cur, node
vars == <<sc, todo, cur, node>>
All == {x \in [l : Labels, s : 0..T, d : 0..T] : x.s + x.d <= T}
Code(x) == x.s * 100 + x.d * 10 + (IF x.l = "f" THEN 0 ELSE 1)
\* node: path (sequence of labels, innermost first) -> latest interval, total, children's total, number
Init ==
    /\ sc \in {q \in UNION {[1..n -> All] : n \in 1..MaxN} : (\A i \in 1..Len(q) - 1 : Code(q[i]) <= Code(q[i + 1])) /\ Proper(q)}
    /\ todo = 1..Len(sc) /\ cur = << >> /\ node = << >>
Before(x, y) == \/ sc[x].s < sc[y].s
                \/ LongFirst /\ sc[x].s = sc[y].s /\ sc[x].d > sc[y].d
Holds(p, x) == node[p].s <= sc[x].s /\ End(sc[x]) <= node[p].s + node[p].d
RECURSIVE Up(_, _)
Up(p, x) == IF p = << >> THEN p ELSE IF Holds(p, x) THEN p ELSE Up(Tail(p), x)
Add == \E x \in todo :
    /\ ~ \E y \in todo : Before(y, x)
    /\ LET p == Up(cur, x)
           me == <<sc[x].l>> \o p
           up == [q \in DOMAIN node |-> IF q = p THEN [node[q] EXCEPT !.kids = @ + sc[x].d] ELSE node[q]]
       IN /\ cur' = me
          /\ node' = IF me \in DOMAIN up
                     THEN [up EXCEPT ![me].s = sc[x].s, ![me].d = sc[x].d, ![me].total = @ + sc[x].d, ![me].n = @ + 1]
                     ELSE up @@ (me :> [s |-> sc[x].s, d |-> sc[x].d, total |-> sc[x].d, kids |-> 0, n |-> 1])
    /\ todo' = todo \ {x} /\ UNCHANGED sc
Next == Add
Spec == Init /\ [][Next]_vars
RECURSIVE Text(_)
Text(p) == Head(p) \o "()" \o (IF Len(p) = 1 THEN "" ELSE "'" \o Text(Tail(p)))
Built == {[fn |-> Text(p), self |-> node[p].total - node[p].kids,
           calls |-> {[to |-> Text(q), n |-> node[q].n, total |-> node[q].total] : q \in {r \in DOMAIN node : Len(r) = Len(p) + 1 /\ Tail(r) = p}}]
          : p \in DOMAIN node}
RightGraph == todo = {} => \E b \in {Built} : b \in Graphs(sc)
\* self times add up to the outermost scopes
RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(S \ {x}, f)
AddsUp == todo = {} => SumF(DOMAIN node, [p \in DOMAIN node |-> node[p].total - node[p].kids]) = SumF({p \in DOMAIN node : Len(p) = 1}, [p \in DOMAIN node |-> node[p].total])
=============================================================================
