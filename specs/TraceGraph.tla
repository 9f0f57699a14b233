------------------------------ MODULE TraceGraph ------------------------------
(* Files the real callgrind converter wrote, against CallGraph.              *)
EXTENDS TraceBase
G == INSTANCE CallGraph
vars == <<l>>
Init == l = 1
Case == Is("Case") /\ Step
Elems(s) == {s[j] : j \in 1..Len(s)}
Shape(fns) == {[fn |-> f.fn, self |-> f.self, calls |-> Elems(f.calls)] : f \in Elems(fns)}
Once(f) == /\ Cardinality({x.fn : x \in Elems(f.fns)}) = Len(f.fns)
           /\ \A x \in Elems(f.fns) : Cardinality({c.to : c \in Elems(x.calls)}) = Len(x.calls)
Right(f, scopes) ==
    LET sc == SelectSeq(scopes, LAMBDA x : x.t = f.name) IN
    /\ f.thread = f.name /\ Once(f) /\ G!Proper(sc)
    /\ \E g \in {Shape(f.fns)} : g \in G!Graphs(sc)
Graph == Is("Graph") /\ Step
    /\ {f.name : f \in Elems(ev.files)} = {x.t : x \in Elems(ev.scopes)}
    /\ Len(ev.files) = Cardinality({f.name : f \in Elems(ev.files)})
    /\ (\A j \in 1..Len(ev.files) : Right(ev.files[j], ev.scopes)) = TRUE
Next == Case \/ Graph
Spec == Init /\ [][Next]_vars
=============================================================================
