------------------------------- MODULE DebugText -------------------------------
(* The text the debugging listener prints: for an event a blank line, the    *)
(* name of its class and, two columns in, one line per field in any order:   *)
(* type, name and value; the fields of a nested event follow the line of     *)
(* their field, two columns further in.  At the end the number of events of  *)
(* each class and of all.                                                    *)
EXTENDS Convert

NL == <<10>>
Spaces(n) == [k \in 1..n |-> 32]
Decimal(n) == LET RECURSIVE D(_)
                  D(k) == IF k < 10 THEN <<48 + k>> ELSE D(k \div 10) \o <<48 + (k % 10)>>
              IN D(n)
ValueText(x) == IF x.t = "s" THEN x.v ELSE IF x.t \in {"i1", "i2", "i4", "i8"} THEN SDec(x.v) ELSE Dec(x.v)
\* text of a field up to its value
Line(f, ind) == Spaces(ind) \o f.ty \o <<32>> \o f.x.n \o <<58, 32>>
Starts(out, i, t) == i + Len(t) - 1 <= Len(out) /\ SubSeq(out, i, i + Len(t) - 1) = t
Without(fs, j) == SubSeq(fs, 1, j - 1) \o SubSeq(fs, j + 1, Len(fs))

\* the places behind the text of all the fields fs, in any order, when it starts at i
RECURSIVE After(_, _, _, _)
After(out, i, fs, ind) ==
    IF fs = << >> THEN {i}
    ELSE UNION {LET f == fs[j]
                    h == Line(f, ind) \o (IF f.x.t = "e" THEN << >> ELSE ValueText(f.x)) \o NL
                IN IF ~ Starts(out, i, h) THEN {}
                   ELSE UNION {After(out, k, Without(fs, j), ind) :
                               k \in IF f.x.t = "e" THEN After(out, i + Len(h), f.sub, ind + 2) ELSE {i + Len(h)}} : j \in 1..Len(fs)}
Printed(out, kn, fs) ==
    LET h == NL \o kn \o NL IN Starts(out, 1, h) /\ Len(out) + 1 \in After(out, 1 + Len(h), fs, 2)

\* counts: sequence of <<name, number>> in any order
RECURSIVE Counted(_, _, _)
Counted(out, i, cs) ==
    IF cs = {} THEN {i}
    ELSE UNION {LET h == <<32, 32>> \o c[1] \o <<58, 32>> \o Decimal(c[2]) \o NL
                IN IF Starts(out, i, h) THEN Counted(out, i + Len(h), cs \ {c}) ELSE {} : c \in cs}
Statistics(out, names) ==
    LET h == Asc("Statistics") \o <<58, 32>> \o NL
        cs == {<<n, Cardinality({j \in 1..Len(names) : names[j] = n})>> : n \in Range(names)}
        t == Asc("Total number of events") \o <<58, 32>> \o Decimal(Len(names)) \o NL
    IN Starts(out, 1, h) /\ \E i \in Counted(out, 1 + Len(h), cs) : Starts(out, i, t) /\ i + Len(t) = Len(out) + 1
=============================================================================
