------------------------------- MODULE GenCore -------------------------------
(* Behaviours of Core as call scripts for the real library (TLC simulation). *)
(* A finished behaviour is printed once; the driver performs the calls and   *)
(* TraceCore judges what really happened.                                    *)
EXTENDS MC_Core
CONSTANTS H, Feat
VARIABLE hist
gvars == <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan, call, lused, hist>>
S(n) == ToString(n)
Add(s) == hist' = Append(hist, s) /\ UNCHANGED lused
Open ==
    \/ BeginInit /\ up < MaxUp /\ Add("init")
    \/ BeginDeinit /\ Add("deinit")
    \/ \E n \in {"", "a", "b"} : FreshT <= MaxT /\ (n = "" \/ up > 0) /\ BeginCreate(FreshT, n) /\ Add("create " \o (IF n = "" THEN "-" ELSE n))
    \/ \E t \in DOMAIN tl, op \in {"Flush", "Unreg", "Destroy"} : Begin(op, t) /\ Add(op \o " " \o S(t))
    \/ \E t \in DOMAIN tl : Len(log[t]) < MaxE /\ BeginPush(t, Len(log[t]) + 1) /\ Add("push " \o S(t))
    \/ ~Feat /\ \E k \in 1..MaxK : RegKlass(k, IF k \in DOMAIN kid THEN kid[k] ELSE nk) /\ Add("regk " \o S(k))
    \/ \E t \in DOMAIN tl, cb \in BOOLEAN : lused < MaxL /\ BeginReg(t, lused + 1, cb) /\ lused' = lused + 1
         /\ hist' = Append(hist, "reg " \o S(t) \o (IF cb THEN " 1" ELSE " 0"))
    \/ Feat /\ \E c \in 1..MaxC, ok \in BOOLEAN : RegFeature(c, ok, IF c \in DOMAIN fid THEN fid[c] ELSE IF ok THEN Cardinality(DOMAIN fid) ELSE -1) /\ Add("regf " \o S(c))
    \/ Feat /\ \E t \in DOMAIN tl, c \in 1..MaxC : BeginEnable(t, c, Len(hist) + 1, FALSE) /\ Add("enf " \o S(t) \o " " \o S(c))
    \/ Feat /\ \E t \in DOMAIN tl, c \in 1..MaxC : GetFeature(t, c, IF <<t, c>> \in DOMAIN fin THEN fin[<<t, c>>] ELSE 0) /\ Add("getf " \o S(t) \o " " \o S(c))
Close ==
    \/ EndInit(IF up = 0 THEN B ELSE nk)
    \/ EndDeinit \/ EndCreate \/ EndReg \/ EndPush \/ EndFlush \/ EndUnreg \/ EndDestroy
    \/ \E x \in DOMAIN lst : LGone(x)
    \/ \E ok \in BOOLEAN : EndEnable(ok)
    \/ \E i \in orphan \cup {fin[p] : p \in DOMAIN fin} : FGone(i)
    \/ \E p \in DOMAIN pos : Received(p[1], p[2], pos[p], Len(log[p[2]]))
Finish == /\ PrintT(<<"SCRIPT", hist>>) /\ call' = [op |-> "done"]
          /\ UNCHANGED <<up, base, nk, kid, grp, tl, lst, log, clr, pos, must, fid, fin, orphan, lused, hist>>
GNext ==
    IF call.op = "done" THEN FALSE
    ELSE IF call.op # "none" THEN Close /\ UNCHANGED <<lused, hist>>
    ELSE IF up = 0 /\ hist = << >> THEN BeginInit /\ Add("init")
    ELSE IF Len(hist) >= H THEN Finish
    ELSE Open
GSpec == MInit /\ hist = << >> /\ [][GNext]_gvars
=============================================================================
