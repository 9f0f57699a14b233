------------------------------- MODULE LabelMap -------------------------------
(* The label generator (which labels the sources hold, how they are numbered) *)
(* and the client's number -> label map.  Texts are sequences of codes.       *)
EXTENDS Naturals, Sequences, FiniteSets
Blank(c) == c \in {32, 9, 11, 12, 13}
Letter(c) == c \in 65..90 \cup 97..122 \cup {95}
Digit(c) == c \in 48..57
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ Blank(s[i]) THEN Skip(s, i + 1) ELSE i
RECURSIVE Word(_, _)
Word(s, i) == IF i <= Len(s) /\ (Letter(s[i]) \/ Digit(s[i])) THEN Word(s, i + 1) ELSE i
HasAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
At(s, i, c) == i <= Len(s) /\ s[i] = c
\* the label of a line, as a sequence of at most one.  A C line holds macro(label);
\* and nothing else but blanks; a Lua line the marker, blanks and a label.
CLabel(s, macro) ==
    LET a == Skip(s, 1) b == Skip(s, a + Len(macro)) e == Word(s, b + 1) p == Skip(s, e + 1) IN
    IF HasAt(s, a, macro) /\ At(s, b, 40) /\ e > b + 1 /\ Letter(s[b + 1]) /\ At(s, e, 41) /\ At(s, p, 59) /\ Skip(s, p + 1) > Len(s)
    THEN <<SubSeq(s, b + 1, e - 1)>> ELSE << >>
LLabel(s, mark) ==
    LET a == Skip(s, 1) b == Skip(s, a + Len(mark)) e == Word(s, b) IN
    IF HasAt(s, a, mark) /\ b > a + Len(mark) /\ e > b /\ Letter(s[b]) /\ Skip(s, e) > Len(s)
    THEN <<SubSeq(s, b, e - 1)>> ELSE << >>
\* files: [ext, lines]; exts: the extensions of a language
FoundIn(files, exts, lang, word) ==
    UNION {UNION {LET x == IF lang = "cpp" THEN CLabel(files[f].lines[k], word) ELSE LLabel(files[f].lines[k], word)
                  IN {x[j] : j \in 1..Len(x)} : k \in 1..Len(files[f].lines)} : f \in {f \in 1..Len(files) : files[f].ext \in exts}}
\* pairs: what an output lists for a language, a sequence of [n (label), v (number)]
Lists(pairs, labels, first) ==
    /\ {pairs[k].n : k \in 1..Len(pairs)} = labels
    /\ Len(pairs) = Cardinality(labels)
    /\ {pairs[k].v : k \in 1..Len(pairs)} = first..(first + Cardinality(labels) - 1)
AsSet(pairs) == {<<pairs[k].n, pairs[k].v>> : k \in 1..Len(pairs)}
\* ---------------------------------------------------------------- the client's map
\* m: function from numbers to [label, cat]; an entry list is a sequence of [c, n, v]
Put(m, v, e) == [x \in DOMAIN m \cup {v} |-> IF x = v THEN e ELSE m[x]]
RECURSIVE Load(_, _)
Load(m, es) == IF es = << >> THEN m ELSE Load(Put(m, es[1].v, [label |-> es[1].n, cat |-> es[1].c]), Tail(es))
RECURSIVE LoadAll(_, _)
LoadAll(m, fs) == IF fs = << >> THEN m ELSE LoadAll(IF fs[1].there THEN Load(m, fs[1].es) ELSE m, Tail(fs))
Mapped(m, v, label) == Put(m, v, [label |-> label, cat |-> "default"])
Resolve(m, v, text) == IF v \in DOMAIN m THEN m[v] ELSE [label |-> text, cat |-> "default"]
=============================================================================
