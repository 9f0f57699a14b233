----------------------------- MODULE TracePyCore ------------------------------
(* Python programs of traced calls: what the program did, call by call, and   *)
(* what the dump files it left behind say.  Traced is a call through a        *)
(* function the decorator wrapped, made while tracing is enabled and the      *)
(* library initialised, of something that has a name; every traced call that  *)
(* completes - returning or raising - is one event of its thread, in the      *)
(* order of completion, whose label is the name.                              *)
EXTENDS TraceBase
VARIABLES inited, deco, tracing, stack, done, said, files
\* stack, done: per thread; done holds the labels of its completed traced calls, said those of all traced calls begun
\* files: per registered file the number of completed calls of each thread at that time, and the labels said before
vars == <<l, inited, deco, tracing, stack, done, said, files>>

Init == l = 1 /\ inited = FALSE /\ deco = FALSE /\ tracing = FALSE /\ stack = << >> /\ done = << >> /\ said = {} /\ files = << >>
Case == Is("Case") /\ Step /\ inited' = FALSE /\ deco' = FALSE /\ tracing' = FALSE /\ stack' = << >> /\ done' = << >> /\ said' = {} /\ files' = << >>

Of(m, t) == IF t \in DOMAIN m THEN m[t] ELSE << >>
Put(m, t, v) == (t :> v) @@ m
Import == Is("Import") /\ Step /\ inited' = ev.env /\ deco' = ev.env /\ tracing' = ev.env /\ UNCHANGED <<stack, done, said, files>>
DoInit == Is("Init") /\ Step /\ inited' = TRUE /\ UNCHANGED <<deco, tracing, stack, done, said, files>>
Deco == Is("Deco") /\ Step /\ deco' = ev.on /\ UNCHANGED <<inited, tracing, stack, done, said, files>>
Tracing == Is("Tracing") /\ Step /\ tracing' = ev.on /\ UNCHANGED <<inited, deco, stack, done, said, files>>
\* without the decorator a function stays what it is
Def == Is("Def") /\ Step /\ ev.same = ~deco /\ UNCHANGED <<inited, deco, tracing, stack, done, said, files>>
Reg == Is("Reg") /\ Step
       /\ (IF ev.ok THEN inited /\ files' = Put(files, ev.k, [at |-> [t \in DOMAIN done |-> Len(done[t])], said |-> said])
           ELSE (ev.bad \/ ~ inited) = TRUE /\ UNCHANGED files)
       /\ UNCHANGED <<inited, deco, tracing, stack, done, said>>

Call == Is("Call") /\ Step
        /\ LET tr == ev.wrapped /\ tracing /\ inited /\ ev.label # ""
           IN /\ stack' = Put(stack, ev.t, Append(Of(stack, ev.t), [traced |-> tr, label |-> ev.label, a |-> ev.a, how |-> "", v |-> "", ph |-> 0]))
              /\ said' = IF tr THEN said \union {ev.label} ELSE said
        /\ UNCHANGED <<inited, deco, tracing, done, files>>
Top(t) == Of(stack, t)[Len(Of(stack, t))]
\* the function saw the arguments of the call
Got == Is("Got") /\ Step /\ Of(stack, ev.t) # << >> /\ Top(ev.t).ph = 0 /\ Top(ev.t).a = ev.a
       /\ stack' = [stack EXCEPT ![ev.t][Len(Of(stack, ev.t))].ph = 1] /\ UNCHANGED <<inited, deco, tracing, done, said, files>>
Out == Is("Out") /\ Step /\ Of(stack, ev.t) # << >> /\ Top(ev.t).ph = 1
       /\ stack' = [stack EXCEPT ![ev.t][Len(Of(stack, ev.t))] = [@ EXCEPT !.ph = 2, !.how = ev.how, !.v = ev.v]] /\ UNCHANGED <<inited, deco, tracing, done, said, files>>
\* and the caller the function's result or exception
Back == Is("Back") /\ Step /\ Of(stack, ev.t) # << >> /\ Top(ev.t).ph = 2 /\ Top(ev.t).how = ev.how /\ Top(ev.t).v = ev.v
        /\ stack' = [stack EXCEPT ![ev.t] = Front(@)]
        /\ done' = (IF Top(ev.t).traced THEN Put(done, ev.t, Append(Of(done, ev.t), Top(ev.t).label)) ELSE done)
        /\ UNCHANGED <<inited, deco, tracing, said, files>>

\* ------------------------------------------------------------- the dump files
PerThread(r) == LET ts == {r.evs[i].t : i \in 1..Len(r.evs)} IN [t \in ts |-> SelectSeq(r.evs, LAMBDA x : x.t = t)]
LabelIs(r, id, s) == \E i \in 1..Len(r.maps) : r.maps[i].id = id /\ r.maps[i].s = s
Named(r, id) == \E i \in 1..Len(r.maps) : r.maps[i].id = id
Since(t, at) == IF t \in DOMAIN at THEN at[t] ELSE 0
\* the calls completed since the listener was registered, and perhaps the last few before
Matches(r, s, t, at, known) ==
    LET d == done[t]
        extra == Len(s) - (Len(d) - Since(t, at))
    IN /\ extra >= 0 /\ extra <= Since(t, at)
       /\ \A i \in 1..Len(s) : LET c == d[Len(d) - Len(s) + i] IN
            IF Named(r, s[i].id) THEN LabelIs(r, s[i].id, c)
            ELSE \* its name was announced before the listener was there
                 c \in known
RECURSIVE Assign(_, _, _, _, _, _)     \* every thread of the file is a different thread of the program
Assign(r, per, as, at, known, free) ==
    IF as = {} THEN \A t \in free : Len(done[t]) = Since(t, at)
    ELSE LET a == CHOOSE x \in as : TRUE IN
         \E t \in free : Matches(r, per[a], t, at, known) /\ Assign(r, per, as \ {a}, at, known, free \ {t})
Functional(r) == \A i, j \in 1..Len(r.maps) : r.maps[i].id = r.maps[j].id => r.maps[i].s = r.maps[j].s
File == Is("File") /\ Step /\ ~ Has(ev, "bad") /\ ev.k \in DOMAIN files
        /\ (Functional(ev) /\ LET per == PerThread(ev) IN Assign(ev, per, DOMAIN per, files[ev.k].at, files[ev.k].said, DOMAIN done)) = TRUE
        /\ files' = [k \in DOMAIN files \ {ev.k} |-> files[k]] /\ UNCHANGED <<inited, deco, tracing, stack, done, said>>
\* the interpreter ended in order, and no file is missing
End == Is("End") /\ Step /\ files = << >> /\ (\A t \in DOMAIN stack : stack[t] = << >>) /\ UNCHANGED <<inited, deco, tracing, stack, done, said, files>>
Next == Case \/ Import \/ DoInit \/ Deco \/ Tracing \/ Def \/ Reg \/ Call \/ Got \/ Out \/ Back \/ File \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
