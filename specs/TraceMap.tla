------------------------------- MODULE TraceMap -------------------------------
EXTENDS TraceBase, LabelMap
VARIABLES m,        \* the client's map
          streamed  \* numbers that were mapped by the stream
vars == <<l, m, streamed>>
Init == l = 1 /\ m = << >> /\ streamed = {}
\* one run of the generator; per language: out (asked for), files, exts, word, and the outputs
Generated(g) ==
    LET fc == IF g.cpp.out THEN FoundIn(g.cpp.files, ToSet(g.cpp.exts), "cpp", g.cpp.word) ELSE {}
        fl == IF g.lua.out THEN FoundIn(g.lua.files, ToSet(g.lua.exts), "lua", g.lua.word) ELSE {}
    IN \E c \in {fc} : \E u \in {fl} :
       /\ g.cpp.out => Lists(g.cpp.pairs, c, 1)
       /\ g.lua.out => Lists(g.lua.pairs, u, Cardinality(c) + 1)
       /\ g.map => /\ Lists(g.mapcpp, c, 1) /\ Lists(g.maplua, u, Cardinality(c) + 1) /\ g.other = 0
                   /\ g.cpp.out => AsSet(g.cpp.pairs) = AsSet(g.mapcpp)
                   /\ g.lua.out => AsSet(g.lua.pairs) = AsSet(g.maplua)
Next ==
    \/ Is("Case") /\ Step /\ m' = << >> /\ streamed' = {}
    \/ Is("Generated") /\ Step /\ Generated(ev) = TRUE /\ UNCHANGED <<m, streamed>>
    \/ Is("Load") /\ Step /\ m' = LoadAll(m, ev.files) /\ UNCHANGED streamed
       /\ (Has(ev, "ok") => ev.ok = ev.files[1].there)
    \/ Is("Mapped") /\ Step /\ m' = Mapped(m, ev.v, ev.n) /\ streamed' = streamed \cup {ev.v}
    \/ Is("Asked") /\ Step /\ Resolve(m, ev.v, ev.v) = [label |-> ev.n, cat |-> ev.c] /\ UNCHANGED <<m, streamed>>
Spec == Init /\ [][Next]_vars
=============================================================================
