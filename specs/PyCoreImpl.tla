------------------------------ MODULE PyCoreImpl ------------------------------
(* The trace wrapper of the Python bindings around the callstack feature:     *)
(* frames of one thread, tracing switched at any time, names said once.  A    *)
(* frame remembers whether it opened an event.                                *)
(* Bug: "recheck" decides again when the call is over, "raise" leaves without *)
(* closing when the function raised, "early" closes before the call, "resay"  *)
(* forgets that a name was said when tracing is switched, "stale" says a name *)
(* after the event using it was delivered.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Names, MaxCalls, MaxDepth, Bug
VARIABLES on, frames, open, map, wire, calls, truth
\* frames: the program's calls; open: the callstack feature's; wire: what was written; truth: the traced calls completed
vars == <<on, frames, open, map, wire, calls, truth>>
Init == on = TRUE /\ frames = << >> /\ open = << >> /\ map = {} /\ wire = << >> /\ calls = 0 /\ truth = << >>
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Switch == on' = ~ on /\ map' = (IF Bug = "resay" THEN {} ELSE map) /\ UNCHANGED <<frames, open, wire, calls, truth>> /\ calls < MaxCalls
Call(n) == /\ calls < MaxCalls /\ Len(frames) < MaxDepth /\ calls' = calls + 1
           /\ frames' = Append(frames, [name |-> n, traced |-> on, opened |-> on])
           /\ IF ~ on THEN UNCHANGED <<open, map, wire>>
              ELSE /\ map' = map \cup {n}
                   /\ wire' = (IF n \notin map /\ Bug # "stale" THEN Append(wire, <<"name", n>>) ELSE wire)
                              \o (IF Bug = "early" THEN <<<<"call", n>>>> ELSE << >>)
                   /\ open' = IF Bug = "early" THEN open ELSE Append(open, n)
           /\ UNCHANGED <<on, truth>>
Close == \* what the feature does: the innermost open event is written
    IF open = << >> THEN UNCHANGED <<open, wire>>
    ELSE open' = Pop(open) /\ wire' = wire \o <<<<"call", Top(open)>>>> \o (IF Bug = "stale" /\ ~ \E i \in 1..Len(wire) : wire[i] = <<"name", Top(open)>> THEN <<<<"name", Top(open)>>>> ELSE << >>)
Leave(how) ==
    /\ frames # << >> /\ frames' = Pop(frames)
    /\ truth' = IF Top(frames).traced THEN Append(truth, Top(frames).name) ELSE truth
    /\ IF Bug = "early" \/ (Bug = "raise" /\ how = "raise") THEN UNCHANGED <<open, wire>>
       ELSE IF (IF Bug = "recheck" THEN on ELSE Top(frames).opened) THEN Close ELSE UNCHANGED <<open, wire>>
    /\ UNCHANGED <<on, map, calls>>
Next == Switch \/ (\E n \in Names : Call(n)) \/ Leave("return") \/ Leave("raise")
Spec == Init /\ [][Next]_vars
Calls == SelectSeq(wire, LAMBDA x : x[1] = "call")
OnePerCall == [i \in 1..Len(Calls) |-> Calls[i][2]] = truth
Balanced == Len(open) = Cardinality({i \in 1..Len(frames) : frames[i].traced})
NamesOnce == \A i, j \in 1..Len(wire) : wire[i] = wire[j] /\ wire[i][1] = "name" => i = j
NameFirst == \A i \in 1..Len(wire) : wire[i][1] = "call" => \E j \in 1..(i - 1) : wire[j] = <<"name", wire[i][2]>>
=============================================================================
