------------------------------ MODULE TraceMeta ------------------------------
(* Recorded registrations and metadata of the real library against Meta.     *)
EXTENDS TraceBase, Meta
VARIABLES kl,      \* name -> fields, for every class whose registration has begun
          id,      \* name -> identifier, as far as it is known
          done,    \* names whose registration has returned
          open     \* metadata requests under way: number -> names that must appear
vars == <<l, kl, id, done, open>>
Init == l = 1 /\ kl = << >> /\ id = << >> /\ done = {} /\ open = << >>
Reset == kl' = << >> /\ id' = << >> /\ done' = {} /\ open' = << >>
Case == Is("Case") /\ Step /\ Reset
\* the library was deinitialised and initialised again: everything starts anew
Restart == Is("Restart") /\ Step /\ open = << >> /\ Reset
RegInv == /\ Is("RegInv") /\ Step
          /\ IF ev.n \in DOMAIN kl THEN kl[ev.n] = ev.f /\ UNCHANGED kl ELSE kl' = kl @@ (ev.n :> ev.f)
          /\ UNCHANGED <<id, done, open>>
Know(n, x) == IF n \in DOMAIN id THEN id[n] = x /\ UNCHANGED id ELSE (\A m \in DOMAIN id : id[m] # x) /\ id' = id @@ (n :> x)
RegRet == /\ Is("RegRet") /\ Step
          /\ ev.n \in DOMAIN kl
          /\ Know(ev.n, ev.id)
          /\ done' = done \cup {ev.n}
          /\ UNCHANGED <<kl, open>>
MetaInv == Is("MetaInv") /\ Step /\ open' = open @@ (ev.c :> done) /\ UNCHANGED <<kl, id, done>>
MetaRet ==
    /\ Is("MetaRet") /\ Step /\ ev.c \in DOMAIN open
    /\ \E r \in {Described(ev.b)} :
         /\ WellDescribed(r, kl, ev.big)
         /\ open[ev.c] \subseteq NamesIn(r)
         /\ \A n \in NamesIn(r) : (n \in DOMAIN id) => id[n] = IdOf(r, n)
         /\ id' = id @@ [n \in NamesIn(r) |-> IdOf(r, n)]
    /\ open' = [c \in DOMAIN open \ {ev.c} |-> open[c]]
    /\ UNCHANGED <<kl, done>>
\* quiescent: the identifiers handed out are dense
Quiet == /\ Is("Quiet") /\ Step /\ done = DOMAIN kl
         /\ {id[n] : n \in done} = {Word(x) : x \in 0..Cardinality(done) - 1}
         /\ UNCHANGED <<kl, id, done, open>>
Next == Case \/ Restart \/ RegInv \/ RegRet \/ MetaInv \/ MetaRet \/ Quiet
Spec == Init /\ [][Next]_vars
=============================================================================
