-------------------------------- MODULE MC_Json --------------------------------
(* Every short text, written as the converter writes it, is read back as the *)
(* same text: the grammar of JsonText accepts what Convert promises.         *)
EXTENDS JsonText, FiniteSets
CONSTANTS Bytes, MaxLen
VARIABLE s
HexDigit(h) == IF h < 10 THEN 48 + h ELSE 87 + h
Esc(c) == IF c \in {34, 92} THEN <<92, c>> ELSE IF c < 32 THEN <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>> ELSE <<c>>
RECURSIVE EscAll(_)
EscAll(x) == IF x = << >> THEN << >> ELSE Esc(Head(x)) \o EscAll(Tail(x))
Quoted(x) == <<34>> \o EscAll(x) \o <<34>>
Init == s \in UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Same(v, t, x) == v.t = t /\ v.v = x
RoundTrip == Same(Json(Quoted(s)), "s", s)
InArray == LET v == Json(<<91, 32>> \o Quoted(s) \o <<44>> \o Quoted(s) \o <<93>>) IN v.t = "a" /\ Len(v.v) = 2 /\ v.v[1].v = s /\ v.v[2].v = s
\* raw text is a document of its own only if nothing had to be escaped
RawOnly == (Json(<<34>> \o s \o <<34>>).t = "s") => \A i \in 1..Len(s) : s[i] >= 32
Unclosed == Json(<<34>> \o EscAll(s)).t = "?"
=============================================================================
