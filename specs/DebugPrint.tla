------------------------------ MODULE DebugPrint ------------------------------
(* A debugging listener at work: it is given events one after another, walks *)
(* over the fields of each in any order (a table of fields has none), goes   *)
(* into nested events and counts the events of each class; everything it     *)
(* prints is what DebugText says.  Broken: 8-bit numbers as characters       *)
(* ("char"), nested fields in the columns of their event ("flat"), an event  *)
(* counted for its nested events as well ("count"), the number of fields     *)
(* that were printed kept when an event is nested ("skip").                  *)
EXTENDS DebugText
CONSTANTS Events, Bug
VARIABLES given, out, stack, text, seen, stats
dv == <<given, out, stack, text, seen, stats>>

N8(k) == <<0, 0, 0, 0, 0, 0, 0, k>>
U8(n, k) == [ty |-> Asc("u8"), x |-> [n |-> Asc(n), t |-> "u1", v |-> N8(k)]]
I8(n, k) == [ty |-> Asc("i8"), x |-> [n |-> Asc(n), t |-> "i1", v |-> [j \in 1..8 |-> IF j < 8 THEN 255 ELSE k]]]
S(n, v) == [ty |-> Asc("str"), x |-> [n |-> Asc(n), t |-> "s", v |-> v]]
E(n, sub) == [ty |-> Asc("E"), x |-> [n |-> Asc(n), t |-> "e", v |-> << >>], sub |-> sub]
FieldSets == {<< >>, <<U8("a", 65)>>, <<I8("a", 190), U8("b", 0)>>, <<S("a", Asc("x")), U8("b", 10)>>,
           <<E("a", <<U8("b", 7)>>), U8("c", 7)>>, <<E("a", <<E("b", <<S("c", << >>)>>), U8("d", 1)>>), S("b", NL)>>}
Classes == {Asc("K"), Asc("L")}

Shows(f) == IF Bug = "char" /\ f.x.t = "u1" THEN <<f.x.v[8]>> ELSE ValueText(f.x)
DInit == given = << >> /\ out = << >> /\ stack = << >> /\ text = << >> /\ seen = << >> /\ stats = [c \in Classes |-> 0]
Give == /\ stack = << >> /\ Len(given) < Events
        /\ \E c \in Classes, fs \in FieldSets :
              /\ given' = Append(given, [kn |-> c, f |-> fs])
              /\ stack' = <<[left |-> fs, ind |-> 2]>> /\ text' = NL \o c \o NL
              /\ stats' = [stats EXCEPT ![c] = @ + 1]
        /\ UNCHANGED <<out, seen>>
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
PrintField ==
         /\ stack # << >> /\ Top.left # << >>
         /\ \E j \in 1..Len(Top.left) :
              LET f == Top.left[j]
                  rest == Append(Below, [Top EXCEPT !.left = Without(Top.left, j)])
              IN IF f.x.t = "e"
                 THEN /\ text' = text \o Line(f, Top.ind) \o NL
                      /\ stack' = Append(IF Bug = "skip" THEN Append(Below, [Top EXCEPT !.left = << >>]) ELSE rest,
                                         [left |-> f.sub, ind |-> IF Bug = "flat" THEN Top.ind ELSE Top.ind + 2])
                      /\ stats' = IF Bug = "count" THEN [stats EXCEPT ![given[Len(given)].kn] = @ + 1] ELSE stats
                 ELSE text' = text \o Line(f, Top.ind) \o Shows(f) \o NL /\ stack' = rest /\ UNCHANGED stats
         /\ UNCHANGED <<given, out, seen>>
Return == /\ stack # << >> /\ Top.left = << >>
          /\ stack' = Below
          /\ IF Len(stack) = 1 THEN out' = Append(out, text) /\ text' = << >> ELSE UNCHANGED <<out, text>>
          /\ UNCHANGED <<given, seen, stats>>
RECURSIVE Lines(_)
Lines(cs) == IF cs = {} THEN << >> ELSE LET c == CHOOSE c \in cs : TRUE IN <<32, 32>> \o c \o <<58, 32>> \o Decimal(stats[c]) \o NL \o Lines(cs \ {c})
Sum == stats[Asc("K")] + stats[Asc("L")]
Total == /\ stack = << >>
         /\ seen' = Asc("Statistics") \o <<58, 32>> \o NL \o Lines({c \in Classes : stats[c] > 0}) \o Asc("Total number of events") \o <<58, 32>> \o Decimal(Sum) \o NL
         /\ seen # seen' /\ UNCHANGED <<given, out, stack, text, stats>>
Forget == seen # << >> /\ seen' = << >> /\ UNCHANGED <<given, out, stack, text, stats>>
DNext == (seen = << >> /\ (Give \/ PrintField \/ Return \/ Total)) \/ Forget
DSpec == DInit /\ [][DNext]_dv

EachPrinted == \A j \in 1..Len(out) : Printed(out[j], given[j].kn, given[j].f)
Counts == seen # << >> => Statistics(seen, [j \in 1..Len(given) |-> given[j].kn])
\* the text determines what was printed: no other set of fields has it
Unambiguous == \A j \in 1..Len(out), fs \in FieldSets : Printed(out[j], given[j].kn, fs) => fs = given[j].f
=============================================================================
