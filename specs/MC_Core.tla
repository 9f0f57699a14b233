------------------------------- MODULE MC_Core -------------------------------
(* Core with every call a small program could make, checked exhaustively.    *)
EXTENDS Core
CONSTANTS MaxT, MaxL, MaxE, MaxUp, MaxK, MaxC
VARIABLE lused       \* listeners ever registered
mvars == <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan, call, lused>>
MInit == CInit /\ lused = 0
FreshT == Cardinality(DOMAIN log) + 1
B == 3               \* classes a fresh library has
Quiet ==
    \/ BeginInit /\ up < MaxUp
    \/ BeginDeinit
    \/ \E n \in {"", "a"} : FreshT <= MaxT /\ (n = "" \/ up > 0) /\ BeginCreate(FreshT, n)
    \/ \E t \in DOMAIN tl, op \in {"Flush", "Unreg", "Destroy"} : Begin(op, t)
    \/ \E t \in DOMAIN tl : Len(log[t]) < MaxE /\ BeginPush(t, Len(log[t]) + 1)
    \/ \E k \in 1..MaxK : RegKlass(k, IF k \in DOMAIN kid THEN kid[k] ELSE nk)
    \/ \E c \in 1..MaxC, ok \in BOOLEAN, id \in -1..MaxC : RegFeature(c, ok, id)
    \/ \E t \in DOMAIN tl, c \in 1..MaxC : BeginEnable(t, c, 10 * t + c + 100 * Cardinality(DOMAIN fin), FALSE)
    \/ EndInit(IF up = 0 THEN B ELSE nk)
    \/ EndDeinit \/ EndCreate \/ EndPush \/ EndFlush \/ EndUnreg \/ EndDestroy
    \/ \E x \in DOMAIN lst : LGone(x)
    \/ \E ok \in BOOLEAN : EndEnable(ok)
    \/ \E i \in orphan \cup {fin[p] : p \in DOMAIN fin} : FGone(i)
    \/ \E p \in DOMAIN pos : \E k \in 0..MaxE, m \in 1..MaxE : Received(p[1], p[2], k, m)
MNext ==
    \/ Quiet /\ UNCHANGED lused
    \/ \E t \in DOMAIN tl, cb \in BOOLEAN : lused < MaxL /\ BeginReg(t, lused + 1, cb) /\ lused' = lused + 1
    \/ EndReg /\ UNCHANGED lused
MSpec == MInit /\ [][MNext]_mvars
\* nothing is ever handed over twice, and what a listener holds never shrinks
Monotone == [][\A p \in DOMAIN pos : p \in DOMAIN pos' => pos'[p] >= pos[p]]_mvars
\* a listener never changes its group, a timeline neither
Stable == [][/\ \A x \in DOMAIN lst : x \in DOMAIN lst' => lst'[x] = lst[x]
             /\ \A t \in DOMAIN tl : t \in DOMAIN tl' => tl'[t] = tl[t]
             /\ \A c \in DOMAIN fid : c \in DOMAIN fid' /\ fid'[c] = fid[c]
             /\ \A k \in DOMAIN kid : k \in DOMAIN kid' => kid'[k] = kid[k]]_mvars
\* a listener goes only with its group or by being unregistered
Kept == [][\A x \in DOMAIN lst : x \notin DOMAIN lst' => call.op \in {"Unreg", "Destroy", "Deinit"}]_mvars
\* timelines sharing a name since the library came up share listeners
OneGroup == \A s, t \in DOMAIN tl : grp[tl[s]].reg /\ grp[tl[t]].reg /\ grp[tl[s]].name = grp[tl[t]].name => On(tl[s]) = On(tl[t])
Isolated == \A s, t \in DOMAIN tl : tl[s] # tl[t] => On(tl[s]) \cap On(tl[t]) = {}
Pairs == \A x \in DOMAIN lst, t \in DOMAIN tl : (<<x, t>> \in DOMAIN pos) <=> lst[x].g = tl[t]
=============================================================================
