-------------------------------- MODULE Convert -------------------------------
(* What the chrome-tracing converter has to write for a stream: one entry    *)
(* per labelled event, in stream order.  The stream is given as bytes and    *)
(* understood through Wire.                                                  *)
EXTENDS Wire, JsonText

nLabel == Asc("label")
nName == Asc("name")
nDuration == Asc("duration")
nThread == Asc("thread_id")
nMapping == Asc("HT_StringMappingEvent")
nIdentifier == Asc("identifier")
Core == {nThread, Asc("timestamp"), Asc("klass_id"), Asc("id"), nLabel, nDuration}

\* decimal digits (most significant first) of a number given by its bytes
RECURSIVE TimesAdd(_, _, _)      \* digits, least significant first, times 256 plus c
TimesAdd(d, j, c) == IF j > Len(d) THEN (IF c = 0 THEN << >> ELSE <<c % 10>> \o TimesAdd(d, j, c \div 10))
                     ELSE LET x == d[j] * 256 + c IN <<x % 10>> \o TimesAdd(d, j + 1, x \div 10)
RECURSIVE DecRev(_, _, _)
DecRev(v, j, d) == IF j > Len(v) THEN d ELSE DecRev(v, j + 1, TimesAdd(d, 1, v[j]))
DecDigits(v) == LET d == DecRev(v, 1, << >>) IN [j \in 1..Len(d) |-> 48 + d[Len(d) + 1 - j]]
Dec(v) == LET d == DecDigits(v) IN IF d = << >> THEN <<48>> ELSE d
\* two's complement
RECURSIVE NegBytes(_, _)
NegBytes(v, c) == IF v = << >> THEN << >>
    ELSE LET x == 255 - v[Len(v)] + c IN Append(NegBytes(SubSeq(v, 1, Len(v) - 1), x \div 256), x % 256)
SDec(v) == IF v[1] >= 128 THEN <<45>> \o Dec(NegBytes(v, 1)) ELSE Dec(v)
\* nanoseconds to microseconds
Micro(v) == LET d == DecDigits(v) IN IF Len(d) <= 3 THEN <<48>> ELSE SubSeq(d, 1, Len(d) - 3)

ByName(fs, n) == {x \in fs : x.n = n}
The(fs, n) == CHOOSE x \in fs : x.n = n
LabelText(fs, map) ==
    IF ByName(fs, nLabel) # {}
    THEN LET x == The(fs, nLabel) IN
         IF x.t = "s" THEN x.v ELSE IF x.v \in DOMAIN map THEN map[x.v] ELSE Dec(x.v)
    ELSE IF \E x \in ByName(fs, nName) : x.t = "s" THEN The(fs, nName).v
    ELSE << >>
Shown(x) == IF x.t = "s" THEN [t |-> "s", v |-> x.v]
            ELSE [t |-> "n", v |-> IF x.t \in {"i1", "i2", "i4", "i8"} THEN SDec(x.v) ELSE Dec(x.v)]
Entry(fs, label) ==
    [name |-> label,
     ts |-> Micro(The(fs, Asc("timestamp")).v),
     dur |-> IF ByName(fs, nDuration) = {} THEN <<48>> ELSE Micro(The(fs, nDuration).v),
     tid |-> IF ByName(fs, nThread) = {} THEN <<48>> ELSE Dec(The(fs, nThread).v),
     args |-> {<<x.n, Shown(x)>> : x \in {y \in fs : y.n \notin Core}}]

RECURSIVE Entries(_, _, _, _, _, _)
Entries(b, i, cls, big, map, acc) ==
    LET e == Event(b, i, cls, big) IN
    IF e.st # "ok" THEN acc
    ELSE LET fs == Range(Flat(e))
             learnt == Learn(e, cls)
             text == IF e.kn = nMapping THEN << >> ELSE LabelText(fs, map)
             map2 == IF e.kn = nMapping THEN [x \in DOMAIN map \cup {The(fs, nIdentifier).v} |-> IF x = The(fs, nIdentifier).v THEN The(fs, nLabel).v ELSE map[x]] ELSE map
             acc2 == IF text = << >> THEN acc ELSE Append(acc, Entry(fs, text))
         IN IF learnt = << >> THEN acc2 ELSE Entries(b, e.nx, learnt, Order(e, big), map2, acc2)

\* -------------------------------------------------------------- the document
Member(o, k) == {p[2] : p \in {q \in Range(o.v) : q[1] = k}}
Is1(o, k, t, v) == Member(o, k) = {[t |-> t, v |-> v]}
IsEntry(o, x) ==
    /\ o.t = "o"
    /\ Cardinality({p[1] : p \in Range(o.v)}) = Len(o.v)
    /\ Is1(o, nName, "s", x.name)
    /\ Is1(o, Asc("ph"), "s", <<88>>)
    /\ Is1(o, Asc("ts"), "n", x.ts)
    /\ Is1(o, Asc("dur"), "n", x.dur)
    /\ Is1(o, Asc("tid"), "n", x.tid)
    /\ Cardinality(Member(o, Asc("pid"))) = 1
    /\ \E a \in Member(o, Asc("args")) : a.t = "o" /\ Range(a.v) = x.args /\ Len(a.v) = Cardinality(x.args)
IsTrace(doc, want) ==
    /\ doc.t = "o"
    /\ \E a \in Member(doc, Asc("traceEvents")) :
         /\ a.t = "a" /\ Len(a.v) = Len(want)
         /\ \A j \in 1..Len(want) : IsEntry(a.v[j], want[j])
=============================================================================
