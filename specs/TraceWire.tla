------------------------------ MODULE TraceWire ------------------------------
(* What the real parser reported for a stream, against Wire; and for streams *)
(* the real library wrote, what was written against what the bytes mean.     *)
EXTENDS TraceBase, Wire
VARIABLE wrote
vars == <<l, wrote>>

Init == l = 1 /\ wrote = << >>
Case == Is("Case") /\ Step /\ wrote' = << >>
\* the application pushed this event
Wrote == Is("Wrote") /\ Step /\ wrote' = Append(wrote, l)

nSystem == Asc("HT_SystemInfoEvent")
User(e) == e.k \notin {KEndian, KKlass, KField} /\ e.kn # nSystem
Shown(rep, e, flat) ==
    /\ rep.k = e.k /\ rep.kn = e.kn
    /\ IF flat THEN FlatMatches(rep.f, e) ELSE Nested(rep.f, e.v)
    /\ (flat \/ e.k = KEvent) => rep.ts = e.head[2].v

\* the class register holds exactly the classes described so far
Type(f) == CASE f.kind = STRUCT -> "e" [] f.kind = TEXT -> "s" [] f.kind = PTR -> "p" [] OTHER -> TypeName(f)
Knows(r, cls) == Has(r, "reg") =>
    /\ ~ r.unknown
    /\ {r.reg[i].k : i \in 1..Len(r.reg)} = DOMAIN cls /\ Len(r.reg) = Cardinality(DOMAIN cls)
    /\ \A i \in 1..Len(r.reg) : LET x == r.reg[i] IN
         /\ x.same /\ x.kn = cls[x.k].n /\ Len(x.f) = Len(cls[x.k].f)
         /\ \A j \in 1..Len(x.f) : LET f == cls[x.k].f[j] IN x.f[j].n = f.n /\ x.f[j].t = f.t /\ x.f[j].ty = Type(f)
\* the parser reported r.evs for the bytes r.b: each is the event at its place,
\* and where it stopped nothing complete and well formed is left
RECURSIVE Walk(_, _, _, _, _, _)
Walk(r, i, cls, big, j, w) ==
    LET e == Event(r.b, i, cls, big)
        learnt == IF e.st = "ok" THEN Learn(e, cls) ELSE << >>
        vague == e.st = "dunno" \/ (e.st = "ok" /\ Ambiguous(e, cls))
    IN IF j > Len(r.evs)
       THEN (vague \/ (learnt = << >> /\ Knows(r, cls))) /\ (r.lib => w > Len(wrote))
       ELSE IF e.st = "dunno" THEN TRUE
       ELSE /\ e.st = "ok" /\ Shown(r.evs[j], e, r.flat)
            /\ \/ vague
               \/ /\ learnt # << >>
                  /\ IF r.lib /\ User(e)
                     THEN /\ w <= Len(wrote) /\ Trace[wrote[w]].kn = e.kn /\ Nested(Trace[wrote[w]].f, e.v)
                          /\ Walk(r, e.nx, learnt, Order(e, big), j + 1, w + 1)
                     ELSE Walk(r, e.nx, learnt, Order(e, big), j + 1, w)
Read == Is("Read") /\ Step /\ (Has(ev, "left") => ev.left = 0) /\ Walk(ev, 1, BootKlasses, FALSE, 1, 1) = TRUE /\ UNCHANGED wrote
Next == Case \/ Wrote \/ Read
Spec == Init /\ [][Next]_vars
=============================================================================
