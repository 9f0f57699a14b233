------------------------------ MODULE CallGraph -------------------------------
(* The call graph of one thread: scopes are intervals; each belongs to the   *)
(* innermost scope that encloses it; scopes with one label under one parent  *)
(* are one node.  Where the intervals leave the nesting open (identical      *)
(* intervals, empty intervals at the edge of another) any consistent choice  *)
(* will do.                                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

End(x) == x.s + x.d
Encl(sc, rk, y, x) ==             \* y encloses x
    /\ y # x /\ sc[y].s <= sc[x].s /\ End(sc[x]) <= End(sc[y])
    /\ (sc[y].s = sc[x].s /\ sc[y].d = sc[x].d) => rk[y] < rk[x]
Touch(sc, y, x) == sc[x].d = 0 /\ (sc[x].s = sc[y].s \/ sc[x].s = End(sc[y]))
Ids(sc) == 1..Len(sc)
Same(sc, x, y) == x # y /\ sc[x].s = sc[y].s /\ sc[x].d = sc[y].d
Tied(sc) == {x \in Ids(sc) : \E y \in Ids(sc) : Same(sc, x, y)}
\* orders among scopes with identical intervals
Ranks(sc) == LET T == Tied(sc) IN
    {[x \in Ids(sc) |-> IF x \in T THEN p[x] ELSE 0] : p \in {q \in [T -> 1..Cardinality(T)] : \A x, y \in T : x # y => q[x] # q[y]}}
Outer(sc, rk, x) == {y \in Ids(sc) : Encl(sc, rk, y, x)}
Inner(sc, rk, S) == {y \in S : ~ \E z \in S : Encl(sc, rk, y, z)}
Parents(sc, rk, x) ==
    LET o == Outer(sc, rk, x)
        open == {y \in o : Touch(sc, y, x)}
        pick(S) == IF S = {} THEN {0} ELSE Inner(sc, rk, S)
    IN UNION {pick(o \ i) : i \in SUBSET open}
\* properly nested: any two scopes are disjoint or one encloses the other
Proper(sc) == \A x, y \in Ids(sc) : x # y =>
    \/ End(sc[x]) <= sc[y].s \/ End(sc[y]) <= sc[x].s
    \/ (sc[x].s <= sc[y].s /\ End(sc[y]) <= End(sc[x]))
    \/ (sc[y].s <= sc[x].s /\ End(sc[x]) <= End(sc[y]))

\* every way to nest, as a function to the parent (0: none)
RECURSIVE Nestings(_, _, _)
Nestings(sc, rk, x) == IF x > Len(sc) THEN {<< >>}
    ELSE {<<p>> \o n : p \in Parents(sc, rk, x), n \in Nestings(sc, rk, x + 1)}
RECURSIVE Path(_, _, _)
Path(sc, par, x) == sc[x].l \o "()" \o (IF par[x] = 0 THEN "" ELSE "'" \o Path(sc, par, par[x]))
RECURSIVE SumD(_, _)
SumD(sc, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN sc[x].d + SumD(sc, S \ {x})
\* the nodes of the graph: name, calls, total and self time, calls to others
Graph(sc, par) ==
    LET path == [x \in Ids(sc) |-> Path(sc, par, x)]
        at(p) == {x \in Ids(sc) : path[x] = p}
        kids(p) == {x \in Ids(sc) : par[x] # 0 /\ path[par[x]] = p}
    IN {[fn |-> p, self |-> SumD(sc, at(p)) - SumD(sc, kids(p)),
         calls |-> {[to |-> q, n |-> Cardinality(at(q)), total |-> SumD(sc, at(q))] : q \in {path[x] : x \in kids(p)}}]
        : p \in {path[x] : x \in Ids(sc)}}
Graphs(sc) == UNION {{Graph(sc, n) : n \in Nestings(sc, rk, 1)} : rk \in Ranks(sc)}
=============================================================================
