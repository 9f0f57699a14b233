-------------------------------- MODULE Wire ---------------------------------
(* The byte format of an event stream (htdump): what a sequence of bytes     *)
(* means to a reader that knows only the bootstrap classes.  Integers are    *)
(* sequences of bytes, most significant first (TLC's integers are too small  *)
(* for 64 bits); texts are sequences of bytes.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
SeqX == INSTANCE SequencesExt

Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Small == "abcdefghijklmnopqrstuvwxyz"
Code(c) == IF c = "_" THEN 95 ELSE IF c = " " THEN 32 ELSE IF c = "*" THEN 42
    ELSE IF \E i \in 1..26 : SubSeq(Letters, i, i) = c THEN 64 + CHOOSE i \in 1..26 : SubSeq(Letters, i, i) = c
    ELSE IF \E i \in 1..26 : SubSeq(Small, i, i) = c THEN 96 + CHOOSE i \in 1..26 : SubSeq(Small, i, i) = c
    ELSE 48 + CHOOSE d \in 0..9 : ToString(d) = c
Asc(s) == [i \in 1..Len(s) |-> Code(SubSeq(s, i, i))]

KEndian == <<0, 0, 0, 0>>
KEvent == <<0, 0, 0, 1>>
KKlass == <<0, 0, 0, 2>>
KField == <<0, 0, 0, 3>>

\* kinds of fields as they are announced in the stream
STRUCT == 1
TEXT == 2
INT == 3
PTR == 6
UINT == 99

nBase == Asc("base")
nEvent == Asc("HT_Event")
Fld(n, t, kind, size) == [n |-> Asc(n), t |-> Asc(t), kind |-> kind, size |-> size]
BootKlasses ==
    (KEndian :> [n |-> Asc("HT_EndiannessInfoEvent"), f |-> << Fld("endianness", "uint8_t", UINT, 1) >>]) @@
    (KEvent :> [n |-> nEvent, f |-> << Fld("klass_id", "uint32_t", UINT, 4), Fld("timestamp", "uint64_t", UINT, 8), Fld("id", "uint64_t", UINT, 8) >>]) @@
    (KKlass :> [n |-> Asc("HT_EventKlassInfoEvent"), f |-> << Fld("info_klass_id", "uint32_t", UINT, 4), Fld("event_klass_name", "const char*", TEXT, 0), Fld("field_count", "uint8_t", UINT, 1) >>]) @@
    (KField :> [n |-> Asc("HT_EventKlassFieldInfoEvent"), f |-> << Fld("info_klass_id", "uint32_t", UINT, 4), Fld("field_type", "const char*", TEXT, 0), Fld("field_name", "const char*", TEXT, 0), Fld("size", "uint64_t", UINT, 8), Fld("data_type", "uint8_t", UINT, 1) >>])
Fixed == {KEvent, KKlass, KField}       \* descriptions of these change nothing

Num(b, i, n, big) == IF big THEN SubSeq(b, i, i + n - 1) ELSE [k \in 1..n |-> b[i + n - k]]
TypeName(f) == (IF f.kind = UINT THEN "u" ELSE "i") \o ToString(f.size)
Some(v) == [st |-> "ok", nx |-> 0, v |-> v]
Fail(st) == [st |-> st, nx |-> 0, v |-> << >>]

RECURSIVE NulNear(_, _, _)
NulNear(b, i, n) ==
    IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i ELSE IF n > 0 THEN NulNear(b, i + 1, n - 1)
    ELSE LET z == SeqX!SelectInSubSeq(b, i, Len(b), LAMBDA x : x = 0) IN z
NulAt(b, i) == NulNear(b, i, 100)

(* Fields of a class from position i on.  inh: the header of the whole event *)
(* counts as this structure's base, because it is reached through "base".    *)
(* Result: st = ok, cut (the bytes end inside), bad (no reader can go on) or *)
(* dunno (two classes share a name: either may be meant).                    *)
Named(cls, name) == {x \in DOMAIN cls : cls[x].n = name}

RECURSIVE Fields(_, _, _, _, _, _, _)
Fields(b, i, k, j, acc, cls, c) ==
    LET fs == cls[k].f IN
    IF j > Len(fs) THEN [st |-> "ok", nx |-> i, v |-> acc]
    ELSE LET f == fs[j] IN
      CASE f.kind \in {INT, UINT} ->
             IF i + f.size - 1 > Len(b) THEN Fail("cut")
             ELSE Fields(b, i + f.size, k, j + 1, Append(acc, [n |-> f.n, t |-> TypeName(f), v |-> Num(b, i, f.size, c.big)]), cls, c)
        [] f.kind = TEXT ->
             LET z == NulAt(b, i) IN
             IF z = 0 THEN Fail("cut")
             ELSE Fields(b, z + 1, k, j + 1, Append(acc, [n |-> f.n, t |-> "s", v |-> SubSeq(b, i, z - 1)]), cls, c)
        [] f.kind = STRUCT ->
             IF f.n = nBase /\ f.t = nEvent /\ c.inh
             THEN Fields(b, i, k, j + 1, Append(acc, [n |-> f.n, t |-> "e", kn |-> nEvent, f |-> c.head]), cls, c)
             ELSE LET sub == Named(cls, f.t) IN
             IF Cardinality(sub) > 1 THEN Fail("dunno")
             ELSE IF sub = {} THEN Fail("bad")
             ELSE LET s == CHOOSE x \in sub : TRUE
                      r == Fields(b, i, s, 1, << >>, cls, [c EXCEPT !.inh = @ /\ f.n = nBase])
                  IN IF r.st # "ok" THEN r
                     ELSE Fields(b, r.nx, k, j + 1, Append(acc, [n |-> f.n, t |-> "e", kn |-> cls[s].n, f |-> r.v]), cls, c)
        [] OTHER -> IF i + 7 > Len(b) THEN Fail("cut") ELSE Fail("bad")

\* the event that starts at position i
Event(b, i, cls, big) ==
    IF i + 19 > Len(b) THEN Fail("cut")
    ELSE LET h == Fields(b, i, KEvent, 1, << >>, cls, [big |-> big, inh |-> FALSE, head |-> << >>])
             k == h.v[1].v
         IN IF k = KEvent THEN [st |-> "ok", nx |-> h.nx, k |-> k, kn |-> nEvent, head |-> h.v, v |-> h.v]
            ELSE IF k \notin DOMAIN cls THEN Fail("bad")
            ELSE LET r == Fields(b, h.nx, k, 1, << >>, cls, [big |-> big, inh |-> TRUE, head |-> h.v])
                 IN IF r.st # "ok" THEN r
                    ELSE [st |-> "ok", nx |-> r.nx, k |-> k, kn |-> cls[k].n, head |-> h.v, v |-> r.v]

\* the fields of the describing classes stand at fixed places
Place == [info_klass_id |-> 1, event_klass_name |-> 2, field_count |-> 3, field_type |-> 2, field_name |-> 3, size |-> 4, data_type |-> 5, endianness |-> 1]
Get(e, name) == e.v[Place[name]].v
SmallNum(v) == IF \E j \in 1..Len(v) - 1 : v[j] # 0 THEN 256 ELSE v[Len(v)]

RECURSIVE Contains(_, _, _)     \* does a class named c contain a structure named n?
Contains(cls, c, n) == c = n \/ \E x \in Named(cls, c) : \E j \in 1..Len(cls[x].f) : cls[x].f[j].kind = STRUCT /\ Contains(cls, cls[x].f[j].t, n)

\* what an event teaches the reader; "bad" if it is a description nobody can use
Learn(e, cls) ==
    CASE e.k = KKlass ->
           LET id == Get(e, "info_klass_id") IN
           IF id \in DOMAIN cls THEN cls ELSE cls @@ (id :> [n |-> Get(e, "event_klass_name"), f |-> << >>])
      [] e.k = KField ->
           LET id == Get(e, "info_klass_id")
               nm == Get(e, "field_name")
               ty == Get(e, "field_type")
               sz == SmallNum(Get(e, "size"))
               kd == SmallNum(Get(e, "data_type"))
               kind == kd
           IN IF id \in Fixed THEN cls
              ELSE IF kind \notin {STRUCT, TEXT, INT, PTR, UINT} \/ (kind \in {INT, UINT} /\ sz \notin {1, 2, 4, 8}) THEN << >>
              ELSE IF id \notin DOMAIN cls THEN << >>
              ELSE IF kind = STRUCT /\ Contains(cls, ty, cls[id].n) THEN << >>
              ELSE IF \E j \in 1..Len(cls[id].f) : cls[id].f[j].n = nm THEN cls
              ELSE [cls EXCEPT ![id].f = Append(@, [n |-> nm, t |-> ty, kind |-> kind, size |-> sz])]
      [] OTHER -> cls
\* two classes of one name: the format does not say which is meant
Ambiguous(e, cls) ==
    \/ /\ e.k = KField /\ SmallNum(Get(e, "data_type")) = STRUCT
       /\ Cardinality({x \in DOMAIN cls : cls[x].n = Get(e, "field_type")}) > 1
    \/ e.k = KEndian /\ Get(e, "endianness") \notin {<<0>>, <<1>>}
Order(e, big) == IF e.k = KEndian THEN Get(e, "endianness") = <<1>> ELSE big

\* ------------------------------------------------- how events are presented
RECURSIVE Flatten(_, _, _)      \* all plain fields, however deep, without the headers of nested structures
Flatten(v, j, top) ==
    IF j > Len(v) THEN << >>
    ELSE IF v[j].t = "e"
         THEN (IF v[j].kn = nEvent THEN << >> ELSE Flatten(v[j].f, 1, FALSE)) \o Flatten(v, j + 1, top)
         ELSE <<v[j]>> \o Flatten(v, j + 1, top)
Range(s) == {s[j] : j \in 1..Len(s)}
Flat(e) == IF e.k = KEvent THEN e.head ELSE Flatten(e.v, 1, TRUE) \o e.head
FlatMatches(rep, e) ==
    LET all == Range(Flat(e)) IN
    /\ {rep[j].n : j \in 1..Len(rep)} = {x.n : x \in all}
    /\ Cardinality({rep[j].n : j \in 1..Len(rep)}) = Len(rep)
    /\ \A j \in 1..Len(rep) : rep[j] \in all
RECURSIVE Nested(_, _)
Nested(rep, v) ==
    /\ Len(rep) = Len(v)
    /\ \A j \in 1..Len(v) : \E k \in 1..Len(rep) :
         /\ rep[k].n = v[j].n /\ rep[k].t = v[j].t
         /\ IF v[j].t = "e" THEN rep[k].kn = v[j].kn /\ Nested(rep[k].f, v[j].f) ELSE rep[k].v = v[j].v
=============================================================================
