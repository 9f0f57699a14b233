------------------------------- MODULE Sources -------------------------------
(* File streams, and which source a description stands for.                  *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES file,      \* bytes of the file that is read
          pos,       \* bytes handed out since the start
          open       \* the stream is started
svars == <<file, pos, open>>
SInit == file = << >> /\ pos = 0 /\ open = FALSE
Begin(exists) == pos' = 0 /\ open' = exists /\ UNCHANGED file
End == open' = FALSE /\ UNCHANGED <<file, pos>>
Got(n, b) == /\ open /\ Len(b) = n /\ pos + n <= Len(file) /\ SubSeq(file, pos + 1, pos + n) = b
             /\ pos' = pos + n /\ UNCHANGED <<file, open>>
NoMore(n) == /\ open /\ pos + n > Len(file) /\ pos' = Len(file) /\ UNCHANGED <<file, open>>

\* ---- descriptions (sequences of character codes)
Digit(c) == c \in 48..57
Dot == 46
Colon == 58
RECURSIVE Run(_, _)     \* first position from i on that is no digit
Run(d, i) == IF i <= Len(d) /\ Digit(d[i]) THEN Run(d, i + 1) ELSE i
RECURSIVE Val(_, _, _, _)
Val(d, i, j, a) == IF i >= j THEN a ELSE Val(d, i + 1, j, 10 * a + d[i] - 48)
\* a number of at most k digits, without leading zeros, not above m; [ok, v, nx]
Number(d, i, k, m) ==
    LET j == Run(d, i) IN
    IF j = i \/ j - i > k \/ (d[i] = 48 /\ j - i > 1) THEN [ok |-> FALSE]
    ELSE LET v == Val(d, i, j, 0) IN IF v > m THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> v, nx |-> j]
RECURSIVE Octets(_, _, _)
Octets(d, i, a) ==
    LET x == Number(d, i, 3, 255) IN
    IF ~x.ok THEN [ok |-> FALSE]
    ELSE IF Len(a) = 3 THEN [ok |-> TRUE, ip |-> Append(a, x.v), nx |-> x.nx]
    ELSE IF x.nx <= Len(d) /\ d[x.nx] = Dot THEN Octets(d, x.nx + 1, Append(a, x.v))
    ELSE [ok |-> FALSE]
\* an address as everybody writes it: [ok, ip, port]
Address(d) ==
    LET o == Octets(d, 1, << >>) IN
    IF ~o.ok THEN [ok |-> FALSE]
    ELSE IF o.nx > Len(d) THEN [ok |-> TRUE, ip |-> o.ip, port |-> 8765]
    ELSE IF d[o.nx] # Colon THEN [ok |-> FALSE]
    ELSE LET p == Number(d, o.nx + 1, 5, 65535) IN
         IF p.ok /\ p.nx > Len(d) THEN [ok |-> TRUE, ip |-> o.ip, port |-> p.v] ELSE [ok |-> FALSE]
\* nothing like an address: fewer than four dotted parts, or other characters among them
Dots(d) == {i \in 1..Len(d) : d[i] = Dot}
Hopeless(d) == \/ Cardinality(Dots(d)) < 3
               \/ \E i \in 1..Len(d) : /\ Cardinality({j \in Dots(d) : j < i}) < 3
                                       /\ ~(Digit(d[i]) \/ d[i] \in {Dot, 32, 9, 10, 11, 12, 13, 43, 45})
\* r: what was made of description d; what: "file" (exists), "dir" or "none"
Resolves(d, what, r) ==
    CASE what = "file" -> r.kind = "file"
      [] what = "dir" -> r.kind \in {"file", "none"}
      [] Address(d).ok -> r.kind = "net" /\ r.ip = Address(d).ip /\ r.port = Address(d).port
      [] Hopeless(d) -> r.kind = "none"
      [] OTHER -> TRUE
=============================================================================
