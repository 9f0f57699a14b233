----------------------------- MODULE CommandLine -----------------------------
(* What a command line means: to the option parser of the tools (part 1), and *)
(* to the library, which picks its own options out of the program's (part 2). *)
(* Texts are sequences of character codes; an argument vector is a sequence   *)
(* of texts without the program's name.                                       *)
EXTENDS Naturals, Sequences
StartsWith(a, p) == Len(a) > Len(p) /\ SubSeq(a, 1, Len(p)) = p
Tail1(a, p) == SubSeq(a, Len(p) + 1, Len(a))
\* ---------------------------------------------------------------- part 1
\* opts: sequence of [n (name), flag, must] in the order of registration; flags
\* cannot be mandatory, and the first registration of a name counts
Registered(opts, i) == /\ ~(opts[i].flag /\ opts[i].must)
                       /\ \A j \in 1..i - 1 : opts[j].n = opts[i].n => opts[j].flag /\ opts[j].must
Known(opts) == {i \in 1..Len(opts) : Registered(opts, i)}
Find(opts, n) == {i \in Known(opts) : opts[i].n = n}
\* the arguments that stand as options (not as the value of the one before)
RECURSIVE Heads(_, _, _, _)
Heads(opts, p, args, i) ==
    IF i > Len(args) THEN << >>
    ELSE LET f == IF StartsWith(args[i], p) THEN Find(opts, Tail1(args[i], p)) ELSE {} IN
         IF f = {} \/ (\E k \in f : opts[k].flag) THEN <<i>> \o Heads(opts, p, args, i + 1)
         ELSE <<i>> \o Heads(opts, p, args, i + 2)
Hs(opts, p, args) == Heads(opts, p, args, 1)
Names(p, args, hs) == {Tail1(args[hs[k]], p) : k \in {j \in 1..Len(hs) : StartsWith(args[hs[j]], p)}}
Accepted(opts, p, args) ==
    LET hs == Hs(opts, p, args) IN
    /\ \A k \in 1..Len(hs) : /\ StartsWith(args[hs[k]], p)
                             /\ \E o \in Find(opts, Tail1(args[hs[k]], p)) : opts[o].flag \/ hs[k] < Len(args)
    /\ \A o \in Known(opts) : opts[o].must => opts[o].n \in Names(p, args, hs)
Given(opts, p, args, n) == n \in Names(p, args, Hs(opts, p, args))
\* value of a given option that takes one: that of its first occurrence
Value(opts, p, args, n) ==
    LET hs == Hs(opts, p, args)
        ks == {k \in 1..Len(hs) : StartsWith(args[hs[k]], p) /\ Tail1(args[hs[k]], p) = n}
        k == CHOOSE x \in ks : \A y \in ks : x <= y
    IN args[hs[k] + 1]
\* got: [n, has, v (result of asking with default d), d]
Reports(opts, p, args, g) ==
    LET is == Given(opts, p, args, g.n) IN
    /\ g.has = is
    /\ ~is => g.v = g.d
    /\ (is /\ \E o \in Find(opts, g.n) : ~opts[o].flag) => g.v = Value(opts, p, args, g.n)
\* ---------------------------------------------------------------- part 2
Txt == [size |-> <<45, 45, 104, 116, 45, 103, 108, 111, 98, 97, 108, 45, 116, 105, 109, 101, 108, 105, 110, 101, 45, 98, 117, 102, 102, 101, 114, 45, 115, 105, 122, 101>>,
        help |-> <<45, 45, 104, 116, 45, 104, 101, 108, 112>>]
Max64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
NotAbove(a, b) == \/ Len(a) < Len(b)     \* decimal numbers without leading zeros
                  \/ /\ Len(a) = Len(b)
                     /\ \A i \in 1..Len(a) : a[i] > b[i] => \E j \in 1..i - 1 : a[j] < b[j]
IsNumber(a) == Len(a) > 0 /\ \A i \in 1..Len(a) : a[i] \in 48..57
SizeOf(a) == IF IsNumber(a) /\ NotAbove(Strip(a), Max64) THEN <<Strip(a)>> ELSE << >>
\* size after the library read the arguments from i on, and whether help was asked for
RECURSIVE Lib(_, _, _)
Lib(args, i, s) ==
    IF i > Len(args) THEN [size |-> s, help |-> FALSE]
    ELSE IF args[i] = Txt.help THEN [size |-> s, help |-> TRUE]
    ELSE IF args[i] # Txt.size THEN Lib(args, i + 1, s)
    ELSE IF i = Len(args) \/ SizeOf(args[i + 1]) = << >> THEN Lib(args, i + 2, s)
    ELSE Lib(args, i + 2, SizeOf(args[i + 1])[1])
=============================================================================
