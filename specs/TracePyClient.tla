---------------------------- MODULE TracePyClient -----------------------------
(* The Python client against the meaning of the streams it was started on    *)
(* (Wire): what it hands over, by polling or by callback, is the events of   *)
(* the stream one after the other, every field with its exact value; when    *)
(* the end was reported, all of them; after stop() no callback.              *)
EXTENDS TraceBase, Wire
VARIABLE src        \* per stream: bytes, position and classes reached, byte order, cb: by callback, st: run, gone, stopped
vars == <<l, src>>

Init == l = 1 /\ src = << >>
Case == Is("Case") /\ Step /\ src' = << >>
Start == Is("Start") /\ Step /\ ev.s \notin DOMAIN src
         /\ src' = (ev.s :> [b |-> ev.b, i |-> 1, cls |-> BootKlasses, big |-> FALSE, cb |-> ev.cb, st |-> "run", vague |-> FALSE]) @@ src
\* once start() returned, the client is done with what it read before
Started == Is("Started") /\ Step
           /\ src' = [s \in DOMAIN src |-> IF s # ev.s /\ src[s].st = "gone" THEN [src[s] EXCEPT !.st = "stopped"] ELSE src[s]]

\* Python's integers as nine bytes
Wide(x) == LET pad == IF SubSeq(x.t, 1, 1) = "i" /\ x.v[1] >= 128 THEN 255 ELSE 0
           IN [k \in 1..9 |-> IF k <= 9 - Len(x.v) THEN pad ELSE x.v[k - (9 - Len(x.v))]]
Same(rep, x) == rep.n = x.n /\ IF x.t = "s" THEN rep.t = "s" /\ rep.v = x.v ELSE rep.t = "n" /\ rep.v = Wide(x)
Shown(rep, e) ==
    LET all == Range(Flat(e)) IN
    /\ {rep[j].n : j \in 1..Len(rep)} = {x.n : x \in all}
    /\ Cardinality({rep[j].n : j \in 1..Len(rep)}) = Len(rep)
    /\ \A j \in 1..Len(rep) : \E x \in all : Same(rep[j], x)

Ev == Is("Ev") /\ Step /\ ev.s \in DOMAIN src
      /\ LET x == src[ev.s]
             e == Event(x.b, x.i, x.cls, x.big)
             learnt == IF e.st = "ok" THEN Learn(e, x.cls) ELSE << >>
             vague == x.vague \/ e.st = "dunno" \/ (e.st = "ok" /\ Ambiguous(e, x.cls))
         IN /\ x.st = "stopped" => ~ x.cb
            /\ IF vague THEN src' = [src EXCEPT ![ev.s].vague = TRUE]
               ELSE /\ (e.st = "ok" /\ ev.kn = e.kn /\ Shown(ev.f, e) /\ learnt # << >>) = TRUE
                    /\ src' = [src EXCEPT ![ev.s].i = e.nx, ![ev.s].cls = learnt, ![ev.s].big = Order(e, x.big)]
\* the end of the stream was reported and nothing is queued: nothing complete is left
Complete(x) == LET e == Event(x.b, x.i, x.cls, x.big) IN
    x.vague \/ e.st # "ok" \/ Learn(e, x.cls) = << >> \/ Ambiguous(e, x.cls)
Waited == Is("Waited") /\ Step /\ Complete(src[ev.s]) = TRUE /\ UNCHANGED src
\* the client is about to go
Gone == Is("Gone") /\ Step /\ src' = [src EXCEPT ![ev.s].st = "gone"]
Stopped == Is("Stopped") /\ Step /\ src' = [src EXCEPT ![ev.s].st = "stopped"]
Api == Is("Api") /\ Step /\ (ev.what \in {"bad source", "bad callback"} => ~ ev.ok) /\ UNCHANGED src
\* a client that was never started, found no source or was stopped: at the end
Idle == Is("Idle") /\ Step /\ ev.eos = TRUE /\ ev.ev = FALSE /\ UNCHANGED src
End == Is("End") /\ Step /\ UNCHANGED src
Next == Case \/ Start \/ Started \/ Ev \/ Waited \/ Gone \/ Stopped \/ Api \/ Idle \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
