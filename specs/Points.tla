-------------------------------- MODULE Points --------------------------------
(* Trace points: the macros of tracepoint.h and global_timeline.h, as the    *)
(* reader of a timeline's events sees them.  A scope is opened by a macro    *)
(* that is given a text (mode "s": the event carries the text, mode "c": the *)
(* event carries an identifier the text was announced for) or a number       *)
(* (mode "i").                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES
    open,    \* timeline -> open scopes, innermost last: [m, lab]
    due,     \* timeline -> closed scopes whose events must still be delivered, in order
    used,    \* timeline -> texts given to cached trace points so far
    known,   \* timeline -> identifier -> text announced on it
    shared   \* all timelines have the same listeners: their announcements must agree
pvars == <<open, due, used, known, shared>>
PInit == open = << >> /\ due = << >> /\ used = << >> /\ known = << >> /\ shared = FALSE
Born(t) == /\ t \notin DOMAIN open
           /\ open' = open @@ (t :> << >>) /\ due' = due @@ (t :> << >>) /\ used' = used @@ (t :> {}) /\ known' = known @@ (t :> << >>)
           /\ UNCHANGED shared
Enter(t, m, lab) ==
    /\ open' = [open EXCEPT ![t] = Append(@, [m |-> m, lab |-> lab])]
    /\ used' = IF m = "c" THEN [used EXCEPT ![t] = @ \cup {lab}] ELSE used
    /\ UNCHANGED <<due, known, shared>>
Leave(t) ==
    /\ open[t] # << >>
    /\ due' = [due EXCEPT ![t] = Append(@, open[t][Len(open[t])])]
    /\ open' = [open EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED <<used, known, shared>>
\* a text is announced: one that was given to a trace point of this timeline, each identifier once
Announced(t, i, lab) ==
    /\ lab \in used[t]
    /\ i \notin DOMAIN known[t]
    /\ shared => \A o \in DOMAIN known : i \in DOMAIN known[o] => known[o][i] = lab
    /\ known' = [known EXCEPT ![t] = @ @@ (i :> lab)]
    /\ UNCHANGED <<open, due, used, shared>>
\* the event of a closed scope is delivered: it says what its trace point was given
Delivered(t, m, x) ==
    /\ due[t] # << >>
    /\ LET e == Head(due[t]) IN
         /\ (e.m = "s") = (m = "s")
         /\ IF e.m = "c" THEN x \in DOMAIN known[t] /\ known[t][x] = e.lab ELSE x = e.lab
    /\ due' = [due EXCEPT ![t] = Tail(@)]
    /\ UNCHANGED <<open, used, known, shared>>
\* the timeline is gone: nothing was lost
Gone(t) == /\ t \in DOMAIN open => due[t] = << >> /\ open[t] = << >>
           /\ UNCHANGED pvars
=============================================================================
