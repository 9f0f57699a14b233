------------------------------- MODULE FeatReg -------------------------------
(* Feature classes registered, enabled and looked up by concurrent threads,  *)
(* each with its own timeline.  A class gets one identifier, one caller is   *)
(* told that it registered it, everybody else is refused.                    *)
EXTENDS Naturals, Integers, FiniteSets, TLC
CONSTANT Room                  \* how many classes can be registered
VARIABLES fid,    \* class -> identifier, once somebody knows it
          won,    \* classes whose registration somebody was told
          asks,   \* call in progress -> class
          tab,    \* <<timeline, class>> -> instance
          gone,   \* instances that were destroyed
          closing,\* timelines being destroyed
          was     \* thread that is enabling -> the class was registered before
fvars == <<fid, won, asks, tab, gone, closing, was>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
FInit == fid = << >> /\ won = {} /\ asks = << >> /\ tab = << >> /\ gone = {} /\ closing = {} /\ was = << >>
FReset == fid' = << >> /\ won' = {} /\ asks' = << >> /\ tab' = << >> /\ gone' = {} /\ closing' = {} /\ was' = << >>
RegInv(t, c) == t \notin DOMAIN asks /\ asks' = Put(asks, t, c) /\ UNCHANGED <<fid, won, tab, gone, closing, was>>
\* classes that may be in the register now
Maybe(t) == DOMAIN fid \cup won \cup {asks[x] : x \in DOMAIN asks \ {t}}
Known(c, id) == IF c \in DOMAIN fid THEN fid[c] = id ELSE id >= 0 /\ \A d \in DOMAIN fid : fid[d] # id
MayReturn(t, ok, id) ==
    LET c == asks[t] IN
    IF ok THEN c \notin won /\ Known(c, id)
    ELSE IF id = -1 THEN c \notin DOMAIN fid /\ Cardinality(Maybe(t)) >= Room
    ELSE Known(c, id) /\ (c \in won \/ \E x \in DOMAIN asks \ {t} : asks[x] = c)
RegRet(t, ok, id) ==
    /\ t \in DOMAIN asks /\ MayReturn(t, ok, id)
    /\ fid' = IF id = -1 THEN fid ELSE Put(fid, asks[t], id)
    /\ won' = IF ok THEN won \cup {asks[t]} ELSE won
    /\ asks' = Drop(asks, {t}) /\ UNCHANGED <<tab, gone, closing, was>>
\* all the threads are back: whoever was refused was refused because of somebody else's success
Settled == asks = << >> /\ won = DOMAIN fid /\ Cardinality(won) <= Room
\* thread t enables class c on its timeline with instance i
EnableInv(t, c) == t \notin DOMAIN was /\ was' = Put(was, t, c \in DOMAIN fid) /\ UNCHANGED <<fid, won, asks, tab, gone, closing>>
EnableRet(t, c, i, ok) ==
    /\ t \in DOMAIN was /\ was' = Drop(was, {t})
    /\ was[t] => (ok <=> <<t, c>> \notin DOMAIN tab)
    /\ ok => c \in Maybe(0) /\ <<t, c>> \notin DOMAIN tab
    /\ ok <=> i \notin gone                                      \* refused: destroyed at once
    /\ tab' = IF ok THEN Put(tab, <<t, c>>, i) ELSE tab
    /\ UNCHANGED <<fid, won, asks, gone, closing>>
Lookup(t, c, i) == i = (IF <<t, c>> \in DOMAIN tab THEN tab[<<t, c>>] ELSE 0) /\ UNCHANGED fvars
\* refused (not in the table), or its timeline is being destroyed
Destroyed(i) == /\ i \notin gone /\ \A p \in DOMAIN tab : tab[p] = i => p[1] \in closing
                /\ gone' = gone \cup {i} /\ UNCHANGED <<fid, won, asks, tab, closing, was>>
TimelineGoes(t) == t \notin closing /\ closing' = closing \cup {t} /\ UNCHANGED <<fid, won, asks, tab, gone, was>>
TimelineGone(t) ==
    /\ t \in closing /\ \A p \in DOMAIN tab : p[1] = t => tab[p] \in gone
    /\ tab' = Drop(tab, {p \in DOMAIN tab : p[1] = t}) /\ UNCHANGED <<fid, won, asks, gone, closing, was>>
OneEach == \A c, d \in DOMAIN fid : fid[c] = fid[d] => c = d
=============================================================================
