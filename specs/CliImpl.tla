------------------------------- MODULE CliImpl -------------------------------
(* The two scanning loops of the code, step by step, against CommandLine.tla, *)
(* over all option tables and argument vectors up to a bound.                 *)
EXTENDS CommandLine, FiniteSets, TLC
CONSTANTS MaxArgs, MaxOpts, Variant   \* Variant: "ok" or a broken one
P == <<1>>
Nm == {<<2>>, <<3>>, <<2, 3>>}
Opt == [n : Nm, flag : BOOLEAN, must : BOOLEAN]
Arg == {P \o n : n \in Nm} \cup {P, <<2>>, <<4>>}
LArg == {Txt.size, Txt.help, <<55>>, <<49, 50>>, <<55, 97>>, << >>}
VARIABLES opts, args, i, map, got, ok, done,    \* tools: got = name -> value given (as pairs)
          largs, j, size, help, ldone
vars == <<opts, args, i, map, got, ok, done, largs, j, size, help, ldone>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ opts \in Seqs(Opt, MaxOpts) /\ args \in Seqs(Arg, MaxArgs)
        /\ i = 1 /\ map = {} /\ got = {} /\ ok = TRUE /\ done = FALSE
        /\ largs \in (IF opts = << >> /\ args = << >> THEN Seqs(LArg, MaxArgs + 1) ELSE {<< >>})
        /\ j = 1 /\ size = <<49>> /\ help = FALSE /\ ldone = FALSE
U2 == UNCHANGED <<largs, j, size, help, ldone>>
U1 == UNCHANGED <<opts, args, i, map, got, ok, done>>
Table == {[n |-> opts[k].n, flag |-> opts[k].flag, must |-> opts[k].must] : k \in {k \in 1..Len(opts) :
             /\ ~(opts[k].flag /\ opts[k].must)
             /\ ~\E h \in 1..k - 1 : opts[h].n = opts[k].n /\ ~(opts[h].flag /\ opts[h].must)}}
Put(n, v) == IF Variant = "last" THEN {g \in got : g.n # n} \cup {[n |-> n, v |-> v]}
             ELSE IF \E g \in got : g.n = n THEN got ELSE got \cup {[n |-> n, v |-> v]}
Scan ==
    /\ ~done /\ i <= Len(args) /\ U2 /\ UNCHANGED <<opts, args, map>>
    /\ IF ~StartsWith(args[i], P) THEN ok' = FALSE /\ done' = TRUE /\ UNCHANGED <<i, got>>
       ELSE LET n == Tail1(args[i], P) os == {o \in Table : o.n = n} IN
            IF os = {} THEN ok' = FALSE /\ done' = TRUE /\ UNCHANGED <<i, got>>
            ELSE LET o == CHOOSE o \in os : TRUE IN
                 IF o.flag THEN got' = Put(n, << >>) /\ i' = i + 1 /\ UNCHANGED <<ok, done>>
                 ELSE IF i = Len(args) THEN /\ ok' = (Variant = "novalue") /\ done' = TRUE /\ UNCHANGED i
                                            /\ got' = (IF Variant = "novalue" THEN Put(n, << >>) ELSE got)
                 ELSE got' = Put(n, args[i + 1]) /\ i' = i + 2 /\ UNCHANGED <<ok, done>>
Finish == /\ ~done /\ i > Len(args) /\ done' = TRUE /\ U2 /\ UNCHANGED <<opts, args, i, map, got>>
          /\ ok' = \A o \in Table : o.must => \E g \in got : g.n = o.n
LScan == /\ ~ldone /\ done /\ U1 /\ UNCHANGED largs
         /\ IF j > Len(largs) THEN ldone' = TRUE /\ UNCHANGED <<j, size, help>>
            ELSE IF largs[j] = Txt.help THEN help' = TRUE /\ ldone' = TRUE /\ UNCHANGED <<j, size>>
            ELSE IF largs[j] = Txt.size THEN
                 /\ j' = (IF Variant = "noskip" THEN j + 1 ELSE j + 2) /\ UNCHANGED <<help, ldone>>
                 /\ size' = (IF j < Len(largs) /\ SizeOf(largs[j + 1]) # << >> THEN SizeOf(largs[j + 1])[1] ELSE size)
            ELSE j' = j + 1 /\ UNCHANGED <<size, help, ldone>>
Next == Scan \/ Finish \/ LScan
Spec == Init /\ [][Next]_vars
Agrees == done => /\ ok = Accepted(opts, P, args)
                  /\ ok => \A n \in Nm : \A d \in {<<9>>} :
                        LET gs == {g \in got : g.n = n} IN
                        Reports(opts, P, args, [n |-> n, has |-> gs # {}, d |-> d, v |-> IF gs = {} THEN d ELSE (CHOOSE g \in gs : TRUE).v])
LAgrees == ldone => [size |-> size, help |-> help] = Lib(largs, 1, <<49>>)
\* every accepted line consists of options and their values only, and a longer table of
\* optional options never turns it down
Sound == done /\ ok => \A k \in 1..Len(args) : StartsWith(args[k], P) \/ (k > 1 /\ StartsWith(args[k - 1], P))
=============================================================================
