--------------------------------- MODULE Core --------------------------------
(* The core library as its user sees it: initialisation, event classes,      *)
(* timelines, listener groups, features.  One thread; an API call is opened  *)
(* by an action, causes callbacks (Dlv, LGone, FGone) and is closed by Ret.  *)
(* When buffered events are handed over is left open (any time up to the end *)
(* of a flush or destroy), everything else is determined.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT MaxFeatures           \* how many feature classes fit

VARIABLES
    up,       \* how often initialised
    base,     \* number of classes a fresh library has (-1: not known yet)
    nk,       \* number of registered classes
    kid,      \* class -> identifier
    grp,      \* group -> [name, reg (the registry refers to it)]
    tl,       \* live timeline -> group
    lst,      \* live listener -> [g, cb]
    log,      \* timeline -> events pushed to it so far
    clr,      \* timeline -> how many of them have certainly left the buffer
    pos,      \* <<listener, timeline>> -> how many of log it has dealt with
    must,     \* <<listener, timeline>> -> events up to this one were pushed before it registered
    fid,      \* feature class -> identifier
    fin,      \* <<timeline, feature class>> -> instance
    orphan,   \* feature instances that must be destroyed by the running call
    call      \* the running call, or [op |-> "none"]

cvars == <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan, call>>

Idle == [op |-> "none"]
CInit ==
    /\ up = 0 /\ base = -1 /\ nk = 0 /\ kid = << >> /\ grp = << >> /\ tl = << >> /\ lst = << >>
    /\ log = << >> /\ clr = << >> /\ pos = << >> /\ must = << >>
    /\ fid = << >> /\ fin = << >> /\ orphan = {} /\ call = Idle
CReset ==
    /\ up' = 0 /\ base' = -1 /\ nk' = 0 /\ kid' = << >> /\ grp' = << >> /\ tl' = << >> /\ lst' = << >>
    /\ log' = << >> /\ clr' = << >> /\ pos' = << >> /\ must' = << >>
    /\ fid' = << >> /\ fin' = << >> /\ orphan' = {} /\ call' = Idle

Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Injective(f) == Cardinality({f[x] : x \in DOMAIN f}) = Cardinality(DOMAIN f)
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
On(g) == {x \in DOMAIN lst : lst[x].g = g}                    \* listeners of a group
Members(g) == {t \in DOMAIN tl : tl[t] = g}                   \* its timelines
ByName(n) == {g \in DOMAIN grp : grp[g].reg /\ grp[g].name = n}

\* ------------------------------------------------------------ initialisation
BeginInit == call = Idle /\ call' = [op |-> "Init"] /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan>>
\* classes: what the library reports after the call
EndInit(classes) ==
    /\ call.op = "Init" /\ call' = Idle /\ up' = up + 1
    /\ IF up = 0
       THEN /\ (base = -1 \/ classes = base)      \* a later start looks like the first one
            /\ base' = classes /\ nk' = classes /\ kid' = << >>
       ELSE /\ classes = nk                       \* a nested one changes nothing
            /\ UNCHANGED <<base, nk, kid>>
    /\ UNCHANGED <<grp, tl, lst, log, clr, pos, must, fid, fin, orphan>>

BeginDeinit ==
    /\ call = Idle /\ call' = [op |-> "Deinit", last |-> up = 1]
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan>>

Status(isup, classes) ==
    /\ call = Idle /\ isup = (up > 0) /\ (up > 0 => classes = nk)
    /\ UNCHANGED cvars

RegKlass(k, id) ==
    /\ call = Idle /\ up > 0
    /\ IF k \in DOMAIN kid
       THEN id = kid[k] /\ UNCHANGED <<nk, kid>>              \* stable
       ELSE id = nk /\ nk' = nk + 1 /\ kid' = Put(kid, k, id) \* dense, unique
    /\ UNCHANGED <<up, base, grp, tl, lst, log, clr, pos, must, fid, fin, orphan, call>>

\* ---------------------------------------------------------- timelines, groups
BeginCreate(t, name) ==
    /\ call = Idle /\ t \notin DOMAIN log
    /\ call' = [op |-> "Create", t |-> t, name |-> name]
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan>>
EndCreate ==
    /\ call.op = "Create" /\ call' = Idle
    /\ LET t == call.t  n == call.name
           g == IF n # "" /\ ByName(n) # {} THEN CHOOSE x \in ByName(n) : TRUE ELSE t
       IN /\ grp' = IF g \in DOMAIN grp THEN grp ELSE Put(grp, g, [name |-> n, reg |-> n # ""])
          /\ tl' = Put(tl, t, g)
          /\ log' = Put(log, t, << >>) /\ clr' = Put(clr, t, 0)
          /\ pos' = [p \in DOMAIN pos \cup (On(g) \X {t}) |-> IF p \in DOMAIN pos THEN pos[p] ELSE 0]
          /\ must' = [p \in DOMAIN must \cup (On(g) \X {t}) |-> IF p \in DOMAIN must THEN must[p] ELSE 0]
    /\ UNCHANGED <<up, base, nk, kid, lst, fid, fin, orphan>>

BeginReg(t, x, cb) ==
    /\ call = Idle /\ t \in DOMAIN tl /\ x \notin DOMAIN lst
    /\ call' = [op |-> "Reg", t |-> t, l |-> x, cb |-> cb]
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan>>
EndReg ==
    /\ call.op = "Reg" /\ call' = Idle
    /\ LET x == call.l  g == tl[call.t]  new == {x} \X Members(g)
       IN /\ lst' = Put(lst, x, [g |-> g, cb |-> call.cb])
          /\ pos' = [p \in DOMAIN pos \cup new |-> IF p \in new THEN clr[p[2]] ELSE pos[p]]
          /\ must' = [p \in DOMAIN must \cup new |-> IF p \in new THEN Len(log[p[2]]) ELSE must[p]]
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, log, clr, fid, fin, orphan>>

Begin(op, t) ==          \* Flush, Unreg, Destroy
    /\ call = Idle /\ t \in DOMAIN tl /\ call' = [op |-> op, t |-> t]
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan>>

BeginPush(t, b) ==
    /\ call = Idle /\ t \in DOMAIN tl
    /\ call' = [op |-> "Push", t |-> t]
    /\ log' = [log EXCEPT ![t] = Append(@, b)]
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, clr, pos, must, fid, fin, orphan>>
EndPush == call.op = "Push" /\ call' = Idle /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan>>

\* listener x is handed events k+1 .. m of timeline t
Received(x, t, k, m) ==
    /\ call.op \in {"Push", "Flush", "Destroy"} /\ call.t = t
    /\ x \in DOMAIN lst /\ <<x, t>> \in DOMAIN pos
    /\ k >= pos[<<x, t>>] /\ (k > pos[<<x, t>>] => k <= must[<<x, t>>])   \* nothing skipped that was pushed after it registered
    /\ m > k /\ m <= Len(log[t])
    /\ pos' = [pos EXCEPT ![<<x, t>>] = m]
    /\ clr' = [clr EXCEPT ![t] = IF m > @ THEN m ELSE @]
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, must, fid, fin, orphan, call>>

Complete(x, t) == (pos[<<x, t>>] = Len(log[t]) \/ must[<<x, t>>] >= Len(log[t])) = TRUE

EndFlush ==
    /\ call.op = "Flush" /\ call' = Idle
    /\ \A x \in On(tl[call.t]) : Complete(x, call.t)
    /\ clr' = [clr EXCEPT ![call.t] = Len(log[call.t])]
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, pos, must, fid, fin, orphan>>

\* groups that lose their last reference by the running call
Dying ==
    CASE call.op = "Destroy" -> IF Members(tl[call.t]) = {call.t} /\ ~grp[tl[call.t]].reg THEN {tl[call.t]} ELSE {}
      [] call.op = "Deinit" -> IF call.last THEN {g \in DOMAIN grp : grp[g].reg /\ Members(g) = {}} ELSE {}
      [] OTHER -> {}
Doomed ==
    IF call.op = "Unreg" THEN On(tl[call.t]) ELSE UNION {On(g) : g \in Dying}

Gone(S) ==   \* listeners S are released
    /\ lst' = Drop(lst, S)
    /\ pos' = Drop(pos, {p \in DOMAIN pos : p[1] \in S})
    /\ must' = Drop(must, {p \in DOMAIN must : p[1] \in S})

LGone(x) ==
    /\ x \in Doomed /\ lst[x].cb
    /\ call.op = "Destroy" => Complete(x, call.t)
    /\ Gone({x})
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, log, clr, fid, fin, orphan, call>>

\* listeners without a destroy callback disappear silently; all others must have been told
AllTold == \A x \in Doomed : ~lst[x].cb

EndUnreg ==
    /\ call.op = "Unreg" /\ call' = Idle /\ AllTold /\ Gone(Doomed)
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, log, clr, fid, fin, orphan>>

EndDestroy ==
    /\ call.op = "Destroy" /\ call' = Idle
    /\ LET t == call.t  S == On(tl[t]) IN
        /\ \A x \in S : Complete(x, t)
        /\ AllTold
        /\ \A p \in DOMAIN fin : p[1] # t                 \* its features are gone
        /\ LET dead == Doomed IN
             /\ lst' = Drop(lst, dead)
             /\ pos' = Drop(pos, {p \in DOMAIN pos : p[1] \in dead \/ p[2] = t})
             /\ must' = Drop(must, {p \in DOMAIN must : p[1] \in dead \/ p[2] = t})
        /\ grp' = Drop(grp, Dying)
        /\ tl' = Drop(tl, {t})
        /\ log' = [log EXCEPT ![t] = << >>]                \* keeps the name used
    /\ UNCHANGED <<up, base, nk, kid, clr, fid, fin, orphan>>

EndDeinit ==
    /\ call.op = "Deinit" /\ call' = Idle
    /\ up' = IF up > 0 THEN up - 1 ELSE 0                  \* surplus calls do nothing
    /\ AllTold /\ Gone(Doomed)
    /\ grp' = IF call.last THEN [g \in DOMAIN grp \ Dying |-> [grp[g] EXCEPT !.reg = FALSE]] ELSE grp
    /\ IF call.last THEN kid' = << >> /\ nk' = 0 ELSE UNCHANGED <<kid, nk>>
    /\ UNCHANGED <<base, tl, log, clr, fid, fin, orphan>>

\* ------------------------------------------------------------------ features
RegFeature(c, ok, id) ==
    /\ call = Idle /\ up > 0
    /\ IF c \in DOMAIN fid THEN ~ok /\ id = fid[c] /\ fid' = fid
       ELSE IF Cardinality(DOMAIN fid) = MaxFeatures THEN ~ok /\ id = -1 /\ fid' = fid
       ELSE ok /\ id >= 0 /\ (\A d \in DOMAIN fid : fid[d] # id) /\ fid' = Put(fid, c, id)
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fin, orphan, call>>

MayEnable(t, c, own) == (own \/ c \in DOMAIN fid) /\ <<t, c>> \notin DOMAIN fin
\* own: the library's own feature classes, registered by initialisation; their release is not observable
BeginEnable(t, c, i, own) ==
    /\ call = Idle /\ t \in DOMAIN tl
    /\ call' = [op |-> "EnF", t |-> t, c |-> c, i |-> i, own |-> own]
    /\ orphan' = IF MayEnable(t, c, own) \/ own THEN {} ELSE {i}
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin>>
EndEnable(ok) ==
    /\ call.op = "EnF" /\ call' = Idle /\ orphan = {}
    /\ ok = MayEnable(call.t, call.c, call.own)
    /\ fin' = IF ok /\ ~call.own THEN Put(fin, <<call.t, call.c>>, call.i)
              ELSE IF ok THEN Put(fin, <<call.t, call.c>>, 0) ELSE fin
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, orphan>>
GetFeature(t, c, i) ==
    /\ call = Idle
    /\ i = IF <<t, c>> \in DOMAIN fin THEN fin[<<t, c>>] ELSE 0
    /\ UNCHANGED cvars
FGone(i) ==
    /\ \/ /\ i \in orphan /\ orphan' = orphan \ {i} /\ fin' = fin
       \/ /\ call.op = "Destroy" /\ i > 0
          /\ \E p \in DOMAIN fin : p[1] = call.t /\ fin[p] = i /\ fin' = Drop(fin, {p})
          /\ orphan' = orphan
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, call>>
\* the library's own features go silently with their timeline
OwnGone ==
    /\ call.op = "Destroy" /\ \E p \in DOMAIN fin : p[1] = call.t /\ fin[p] = 0
    /\ fin' = Drop(fin, {p \in DOMAIN fin : p[1] = call.t /\ fin[p] = 0})
    /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, orphan, call>>

Mem(blocks) ==  \* nothing is kept once the library is down and no timeline is left
    /\ up = 0 /\ tl = << >> /\ blocks = 0 /\ UNCHANGED cvars

\* -------------------------------------------------------------- consequences
GroupsSane ==
    /\ \A t \in DOMAIN tl : tl[t] \in DOMAIN grp
    /\ \A x \in DOMAIN lst : lst[x].g \in DOMAIN grp          \* no listener without its group
    /\ LET R == {g \in DOMAIN grp : grp[g].reg} IN Cardinality({grp[g].name : g \in R}) = Cardinality(R)
    /\ {g \in DOMAIN grp : ~grp[g].reg} \subseteq {tl[t] : t \in DOMAIN tl}    \* no group without a reference
    /\ up = 0 => \A g \in DOMAIN grp : ~grp[g].reg
IdsSane ==
    /\ Injective(kid) /\ Injective(fid)
    /\ Cardinality(DOMAIN fid) <= MaxFeatures
FeaturesSane == LET P == {p \in DOMAIN fin : fin[p] > 0} IN Cardinality({fin[p] : p \in P}) = Cardinality(P)
PosSane == \A p \in DOMAIN pos : pos[p] <= Len(log[p[2]]) /\ p[1] \in DOMAIN lst /\ p[2] \in DOMAIN tl
Sane == GroupsSane /\ IdsSane /\ FeaturesSane /\ PosSane
=============================================================================
