----------------------------- MODULE TraceConvert -----------------------------
(* Files the real chrome-tracing converter wrote, against Convert.           *)
EXTENDS TraceBase, Convert
vars == <<l>>
Init == l = 1
Case == Is("Case") /\ Step
Loaded == [x \in {m.id : m \in Range(ev.map)} |-> (CHOOSE m \in Range(ev.map) : m.id = x).label]
Chrome == Is("Chrome") /\ Step
    /\ (\E doc \in {Json(ev.out)} : \E want \in {Entries(ev.b, 1, BootKlasses, FALSE, Loaded, << >>)} : IsTrace(doc, want)) = TRUE
Next == Case \/ Chrome
Spec == Init /\ [][Next]_vars
=============================================================================
