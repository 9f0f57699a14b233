------------------------------- MODULE JsonText -------------------------------
(* What a sequence of bytes means as a JSON document (RFC 8259).  A value is *)
(* [t |-> "s", v |-> bytes], [t |-> "n", v |-> digits as written],           *)
(* [t |-> "l", v |-> the word], [t |-> "a", v |-> values],                   *)
(* [t |-> "o", v |-> pairs <<key, value>>]; t = "?" is a syntax error.       *)
EXTENDS Naturals, Sequences

JBad == [t |-> "?", v |-> << >>, nx |-> 0]
JVal(t, v, nx) == [t |-> t, v |-> v, nx |-> nx]
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0

RECURSIVE JSkip(_, _)
JSkip(b, i) == IF At(b, i) \in {9, 10, 13, 32} THEN JSkip(b, i + 1) ELSE i

IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE JDigits(_, _)
JDigits(b, i) == IF IsDigit(At(b, i)) THEN JDigits(b, i + 1) ELSE i

JNumber(b, i) ==
    LET a == IF At(b, i) = 45 THEN i + 1 ELSE i
        d == IF At(b, a) = 48 THEN a + 1 ELSE JDigits(b, a)
        f == IF At(b, d) = 46 THEN JDigits(b, d + 1) ELSE d
        s == IF At(b, f) \in {69, 101} THEN (IF At(b, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1) ELSE f
        e == IF s = f THEN f ELSE JDigits(b, s)
    IN IF d = a \/ (f # d /\ f = d + 1) \/ (s # f /\ e = s) THEN JBad ELSE JVal("n", SubSeq(b, i, e - 1), e)

HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 99
Hex4(b, i) == LET h == [k \in 1..4 |-> HexVal(At(b, i + k - 1))] IN
    IF \E k \in 1..4 : h[k] = 99 THEN 65536 ELSE h[1] * 4096 + h[2] * 256 + h[3] * 16 + h[4]
Utf8(c) == IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Plain == [c \in {34, 47, 92, 98, 102, 110, 114, 116} |->
    CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

RECURSIVE PlainRun(_, _)
PlainRun(b, i) == IF At(b, i) >= 32 /\ At(b, i) \notin {34, 92} THEN PlainRun(b, i + 1) ELSE i
RECURSIVE JStr(_, _, _)          \* i: just after the opening quote
JStr(b, i, acc) ==
    LET j == PlainRun(b, i)
        got == acc \o SubSeq(b, i, j - 1)
        c == At(b, j)
    IN IF c = 34 THEN JVal("s", got, j + 1)
       ELSE IF c # 92 THEN JBad
       ELSE LET d == At(b, j + 1) IN
            IF d \in DOMAIN Plain THEN JStr(b, j + 2, Append(got, Plain[d]))
            ELSE IF d # 117 THEN JBad
            ELSE LET u == Hex4(b, j + 2)
                     lo == IF At(b, j + 6) = 92 /\ At(b, j + 7) = 117 THEN Hex4(b, j + 8) ELSE 65536
                 IN IF u = 65536 THEN JBad
                    ELSE IF u >= 55296 /\ u < 56320 /\ lo >= 56320 /\ lo < 57344
                         THEN JStr(b, j + 12, got \o Utf8(65536 + (u - 55296) * 1024 + (lo - 56320)))
                    ELSE JStr(b, j + 6, got \o Utf8(u))

RECURSIVE JValue(_, _)
RECURSIVE JMembers(_, _, _)
RECURSIVE JItems(_, _, _)
JMembers(b, i, acc) ==           \* i: at a key
    IF At(b, i) # 34 THEN JBad
    ELSE LET k == JStr(b, i + 1, << >>) IN
    IF k.t = "?" THEN JBad
    ELSE LET c == JSkip(b, k.nx) IN
    IF At(b, c) # 58 THEN JBad
    ELSE LET v == JValue(b, JSkip(b, c + 1)) IN
    IF v.t = "?" THEN JBad
    ELSE LET n == JSkip(b, v.nx)
             all == Append(acc, <<k.v, [t |-> v.t, v |-> v.v]>>)
         IN IF At(b, n) = 125 THEN JVal("o", all, n + 1)
            ELSE IF At(b, n) = 44 THEN JMembers(b, JSkip(b, n + 1), all) ELSE JBad
JItems(b, i, acc) ==
    LET v == JValue(b, i) IN
    IF v.t = "?" THEN JBad
    ELSE LET n == JSkip(b, v.nx)
             all == Append(acc, [t |-> v.t, v |-> v.v])
         IN IF At(b, n) = 93 THEN JVal("a", all, n + 1)
            ELSE IF At(b, n) = 44 THEN JItems(b, JSkip(b, n + 1), all) ELSE JBad
Word(b, i, w) == SubSeq(b, i, IF i + Len(w) - 1 > Len(b) THEN Len(b) ELSE i + Len(w) - 1) = w
wTrue == <<116, 114, 117, 101>>
wFalse == <<102, 97, 108, 115, 101>>
wNull == <<110, 117, 108, 108>>
JValue(b, i) ==
    LET c == At(b, i) IN
    CASE c = 34 -> JStr(b, i + 1, << >>)
      [] c = 123 -> LET n == JSkip(b, i + 1) IN IF At(b, n) = 125 THEN JVal("o", << >>, n + 1) ELSE JMembers(b, n, << >>)
      [] c = 91 -> LET n == JSkip(b, i + 1) IN IF At(b, n) = 93 THEN JVal("a", << >>, n + 1) ELSE JItems(b, n, << >>)
      [] c = 45 \/ IsDigit(c) -> JNumber(b, i)
      [] Word(b, i, wTrue) -> JVal("l", wTrue, i + 4)
      [] Word(b, i, wFalse) -> JVal("l", wFalse, i + 5)
      [] Word(b, i, wNull) -> JVal("l", wNull, i + 4)
      [] OTHER -> JBad
\* a whole document
Json(b) == LET v == JValue(b, JSkip(b, 1)) IN IF v.t # "?" /\ JSkip(b, v.nx) = Len(b) + 1 THEN v ELSE JBad
=============================================================================
