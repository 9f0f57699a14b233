------------------------------- MODULE AllocLib -------------------------------
(* What the core library may hold of the user's allocator (and of files and  *)
(* sockets), and what a failed allocation may do.  Every block belongs to    *)
(* one owner: the library itself, a group of timelines, a timeline, a        *)
(* listener, a scheduler, a server or another object.  A creation or         *)
(* registration in which an allocation failed reports failure and changes    *)
(* nothing (a named group that is already registered stays, it belongs to    *)
(* the library); everything else goes on as if the call had not been made.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
VARIABLES own,     \* owner -> [b |-> blocks, f |-> descriptors]
          named,   \* names of the groups the library keeps
          tl,      \* timelines: id -> [g, founder, ser, feats, labels, scopes]
          lis,     \* group owner -> sequence of listeners [id, kind]
          sch,     \* schedulers: id -> sequence of tasks [id, keep]
          kls,     \* number of registered classes
          srv      \* servers: id -> sequence of clients [id, gone]
avars == <<own, named, tl, lis, sch, kls, srv>>
Zero == [b |-> 0, f |-> 0]
Plus(x, y) == [b |-> x.b + y.b, f |-> x.f + y.f]
Minus(x, y) == [b |-> x.b - y.b, f |-> x.f - y.f]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Of(o) == IF o \in DOMAIN own THEN own[o] ELSE Zero
AInit == own = << >> /\ named = {} /\ tl = << >> /\ lis = << >> /\ sch = << >> /\ kls = 0 /\ srv = << >>
Live == FoldSet(LAMBDA o, acc : Plus(own[o], acc), Zero, DOMAIN own)
NonNeg(x) == x.b >= 0 /\ x.f >= 0

\* the call's effect on the resources (d) goes to owner o
Gains(o, d) == own' = With(own, o, Plus(Of(o), d)) /\ NonNeg(Plus(Of(o), d))
\* everything the owners in S hold is given back
Releases(S, d) == /\ d = Minus(Zero, FoldSet(LAMBDA o, acc : Plus(Of(o), acc), Zero, S))
                  /\ own' = Without(own, S)
Nothing(d) == d = Zero /\ UNCHANGED own

Group(name, t) == IF name = "" THEN t ELSE "g:" \o name
Lids(g) == {lis[g][k].id : k \in 1..Len(lis[g])}

Create(t, name, ser, ok, fail, d) ==
    LET g == Group(name, t)  new == name # "" /\ name \notin named IN
    /\ ok = (fail = 0)
    /\ IF ok
       THEN /\ Gains(t, d) /\ d.f = 0
            /\ tl' = With(tl, t, [g |-> g, founder |-> new, ser |-> ser, feats |-> {}, labels |-> {}, scopes |-> << >>])
            /\ lis' = IF g \in DOMAIN lis THEN lis ELSE With(lis, g, << >>)
            /\ named' = IF name = "" THEN named ELSE named \cup {name}
       ELSE /\ UNCHANGED tl
            /\ IF new /\ d # Zero
               THEN Gains(g, d) /\ d.b > 0 /\ d.f = 0 /\ named' = named \cup {name} /\ lis' = With(lis, g, << >>)
               ELSE Nothing(d) /\ UNCHANGED <<named, lis>>
    /\ UNCHANGED <<sch, kls, srv>>
\* destroyed: listeners whose owners' destroy callbacks were called
DestroyTl(t, destroyed, d) ==
    LET x == tl[t]  alone == x.g = t IN
    /\ tl' = Without(tl, {t})
    /\ IF alone
       THEN /\ Releases({t} \cup Lids(t), d) /\ lis' = Without(lis, {t})
            /\ destroyed = SelectSeq([k \in 1..Len(lis[t]) |-> IF lis[t][k].kind = "full" THEN lis[t][k].id ELSE ""], LAMBDA i : i # "")
       ELSE /\ destroyed = << >> /\ UNCHANGED lis
            /\ IF x.founder
               THEN \* part of what the creation took belongs to the group
                    /\ d.f = 0 /\ d.b < 0 /\ NonNeg(Plus(Of(t), d))
                    /\ own' = With(Without(own, {t}), x.g, Plus(Of(x.g), Plus(Of(t), d)))
               ELSE Releases({t}, d)
    /\ UNCHANGED <<named, sch, kls, srv>>
\* kind: "plain", "full" (with a destroy callback), "file", "tcp"
\* wide: descriptions of classes that need memory of their own; each may be lost for the want of it
Register(t, i, kind, possible, wide, ok, fail, d) ==
    LET g == tl[t].g IN
    /\ IF ok THEN possible /\ (fail = 0 \/ (kind = "file" /\ fail <= wide)) ELSE ~possible \/ fail > 0
    /\ IF ok THEN Gains(i, d) /\ lis' = [lis EXCEPT ![g] = Append(@, [id |-> i, kind |-> kind])]
       ELSE Nothing(d) /\ UNCHANGED lis
    /\ UNCHANGED <<named, tl, sch, kls, srv>>
Unregister(t, destroyed, d) ==
    LET g == tl[t].g IN
    /\ Releases(Lids(g), d)
    /\ destroyed = SelectSeq([k \in 1..Len(lis[g]) |-> IF lis[g][k].kind = "full" THEN lis[g][k].id ELSE ""], LAMBDA i : i # "")
    /\ lis' = [lis EXCEPT ![g] = << >>]
    /\ UNCHANGED <<named, tl, sch, kls, srv>>
Enable(t, feat, ok, fail, d) ==
    /\ IF ok THEN fail = 0 /\ feat \notin tl[t].feats /\ Gains(t, d) /\ tl' = [tl EXCEPT ![t].feats = @ \cup {feat}]
       ELSE (fail > 0 \/ feat \in tl[t].feats) /\ Nothing(d) /\ UNCHANGED tl
    /\ UNCHANGED <<named, lis, sch, kls, srv>>
\* what each listener of the group gets of an event of serialised size ss and plain size us
Got(g, ser, ss, us, fail, got) ==
    /\ Len(got) = Len(lis[g])
    /\ \A k \in 1..Len(lis[g]) :
         LET x == lis[g][k]  full == IF x.kind = "file" \/ ser THEN ss ELSE us IN
         /\ got[k].l = x.id
         /\ x.kind # "tcp" => \/ got[k].n = full
                              \/ fail > 0 /\ got[k].n = 0
NoneGot(g, got) == Len(got) = Len(lis[g]) /\ \A k \in 1..Len(got) : got[k].n = 0
Emit(t, ss, us, got, fail, d) ==
    /\ Got(tl[t].g, tl[t].ser, ss, us, fail, got) /\ Nothing(d)
    /\ UNCHANGED <<named, tl, lis, sch, kls, srv>>
Label(t, x, ok, ss, us, got, fail, d) ==
    /\ IF x \in tl[t].labels
       THEN ok /\ NoneGot(tl[t].g, got) /\ Nothing(d) /\ UNCHANGED tl
       ELSE IF ok
       THEN /\ Gains(t, d) /\ d.f = 0
            /\ Got(tl[t].g, tl[t].ser, ss, us, fail, got)
            /\ tl' = [tl EXCEPT ![t].labels = @ \cup {x}]
       ELSE fail > 0 /\ NoneGot(tl[t].g, got) /\ Nothing(d) /\ UNCHANGED tl
    /\ UNCHANGED <<named, lis, sch, kls, srv>>
\* a scope is kept, lost, or (inside a lost one) either
Start(t, label, ss, us, fail, d) ==
    LET s == tl[t].scopes
        st == IF fail > 0 THEN "lost?" ELSE IF Len(s) > 0 /\ s[Len(s)].st # "kept" THEN "lost?" ELSE "kept" IN
    /\ Nothing(d)
    /\ tl' = [tl EXCEPT ![t].scopes = Append(@, [label |-> label, ss |-> ss, us |-> us, st |-> st])]
    /\ UNCHANGED <<named, lis, sch, kls, srv>>
Stop(t, label, got, fail, d) ==
    LET s == tl[t].scopes  x == s[Len(s)] IN
    /\ Nothing(d)
    /\ \/ /\ Got(tl[t].g, tl[t].ser, x.ss, x.us, fail, got)
          /\ label = (IF \E k \in 1..Len(got) : lis[tl[t].g][k].kind \in {"plain", "full"} /\ got[k].n > 0 THEN x.label ELSE 0)
       \/ x.st = "lost?" /\ label = 0 /\ NoneGot(tl[t].g, got)
    /\ tl' = [tl EXCEPT ![t].scopes = Front(@)]
    /\ UNCHANGED <<named, lis, sch, kls, srv>>
\* a timeline of the calling thread, used and gone again with its thread
Global(ok, used, fail, d) ==
    LET new == "HT_GlobalTimeline" \notin named IN
    /\ ok = (fail = 0)
    /\ ok => used
    /\ IF new /\ d # Zero
       THEN /\ Gains("g:HT_GlobalTimeline", d) /\ d.b > 0 /\ d.f = 0
            /\ named' = named \cup {"HT_GlobalTimeline"} /\ lis' = With(lis, "g:HT_GlobalTimeline", << >>)
       ELSE Nothing(d) /\ (ok => ~new) /\ UNCHANGED <<named, lis>>
    /\ UNCHANGED <<tl, sch, kls, srv>>
\* other objects: identifier providers, usage contexts, schedulers, servers
New(o, kind, ok, fail, d) ==
    /\ ok = (fail = 0)
    /\ IF ok THEN /\ Gains(o, d) /\ d.b > 0 /\ d.f = 0
                  /\ sch' = IF kind = "sched" THEN With(sch, o, << >>) ELSE sch
                  /\ srv' = IF kind = "server" THEN With(srv, o, << >>) ELSE srv
       ELSE Nothing(d) /\ UNCHANGED <<sch, srv>>
    /\ UNCHANGED <<named, tl, lis, kls>>
Free(o, d) ==
    /\ Releases({o}, d)
    /\ sch' = Without(sch, {o}) /\ srv' = Without(srv, {o})
    /\ UNCHANGED <<named, tl, lis, kls>>
Schedule(s, id, keep, fail, d) ==
    /\ (id >= 0) = (fail = 0)
    /\ IF id >= 0
       THEN /\ \A k \in 1..Len(sch[s]) : sch[s][k].id # id
            /\ Gains(s, d) /\ sch' = [sch EXCEPT ![s] = Append(@, [id |-> id, keep |-> keep])]
       ELSE Nothing(d) /\ UNCHANGED sch
    /\ UNCHANGED <<named, tl, lis, kls, srv>>
\* all tasks are due; finished ones give their memory back
Tick(s, ran, d) ==
    /\ Len(ran) = Len(sch[s]) /\ ToSet(ran) = {sch[s][k].id : k \in 1..Len(sch[s])}
    /\ Gains(s, d) /\ d.f = 0
    /\ LET left == SelectSeq(sch[s], LAMBDA x : x.keep) IN
       /\ sch' = [sch EXCEPT ![s] = left]
       /\ Len(left) = Len(sch[s]) => d.b = 0
       /\ Len(left) < Len(sch[s]) => d.b <= 0
    /\ UNCHANGED <<named, tl, lis, kls, srv>>
RemoveTask(s, id, ok, d) ==
    /\ ok = (\E k \in 1..Len(sch[s]) : sch[s][k].id = id)
    /\ Gains(s, d) /\ d.f = 0 /\ d.b <= 0 /\ (~ok => d.b = 0)
    /\ sch' = [sch EXCEPT ![s] = SelectSeq(@, LAMBDA x : x.id # id)]
    /\ UNCHANGED <<named, tl, lis, kls, srv>>
RegisterClass(id, count, fail, d) ==
    /\ (id >= 0) = (fail = 0)
    /\ IF id >= 0 THEN id = kls /\ count = kls + 1 /\ kls' = kls + 1 /\ Gains("lib", d) ELSE count = kls /\ Nothing(d) /\ UNCHANGED kls
    /\ UNCHANGED <<named, tl, lis, sch, srv>>
StartServer(o, ok, fail, d) ==
    /\ ok = (fail = 0)
    /\ IF ok THEN Gains(o, d) /\ d.f = 1 ELSE Nothing(d)
    /\ UNCHANGED <<named, tl, lis, sch, kls, srv>>
\* the descriptor of an accepted client belongs to the server
AddClient(o, c, ok, fail, d) ==
    /\ ok = (fail = 0)
    /\ d.f = 0
    /\ IF ok THEN Gains(o, [d EXCEPT !.f = 1]) /\ srv' = [srv EXCEPT ![o] = Append(@, [id |-> c, gone |-> FALSE])]
       ELSE Nothing(d) /\ UNCHANGED srv
    /\ UNCHANGED <<named, tl, lis, sch, kls>>
ClientLeaves(o, c) ==
    /\ srv' = [srv EXCEPT ![o] = [k \in 1..Len(@) |-> IF @[k].id = c THEN [@[k] EXCEPT !.gone = TRUE] ELSE @[k]]]
    /\ UNCHANGED <<own, named, tl, lis, sch, kls>>
Send(o, n, got, d) ==
    LET here == SelectSeq(srv[o], LAMBDA x : ~x.gone) IN
    /\ got = {[c |-> here[k].id, n |-> n] : k \in 1..Len(here)}
    /\ d.f = Len(here) - Len(srv[o]) /\ d.b <= 0 /\ (d.f = 0 => d.b = 0)
    /\ Gains(o, d)
    /\ srv' = [srv EXCEPT ![o] = here]
    /\ UNCHANGED <<named, tl, lis, sch, kls>>
Start0(n, d) ==   \* the library comes up: nothing of it failed
    /\ Gains("lib", d) /\ d.f = 0 /\ kls' = n
    /\ UNCHANGED <<named, tl, lis, sch, srv>>
Finish(destroyed, d) ==
    /\ tl = << >> /\ sch = << >> /\ srv = << >>
    /\ Releases(DOMAIN own, d)
    /\ LET all == UNION {{lis[g][k].id : k \in {j \in 1..Len(lis[g]) : lis[g][j].kind = "full"}} : g \in DOMAIN lis} IN
       Len(destroyed) = Cardinality(all) /\ ToSet(destroyed) = all
    /\ named' = {} /\ lis' = << >> /\ kls' = 0 /\ UNCHANGED <<tl, sch, srv>>
=============================================================================
