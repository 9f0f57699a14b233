------------------------------- MODULE MC_Wire -------------------------------
(* Writer and reader of the stream format, exhaustively for small streams:   *)
(* whatever is written (in either byte order) is read back, and a stream cut *)
(* at any byte yields exactly the events that were complete before the cut.  *)
EXTENDS Wire
CONSTANTS MaxEvents
VARIABLES b, log, cls, big, ends
vars == <<b, log, cls, big, ends>>

Put(v) == IF big THEN v ELSE [k \in 1..Len(v) |-> v[Len(v) + 1 - k]]
Hd(k, ts, id) == << [n |-> Asc("klass_id"), t |-> "u4", v |-> k], [n |-> Asc("timestamp"), t |-> "u8", v |-> ts], [n |-> Asc("id"), t |-> "u8", v |-> id] >>
RECURSIVE Enc(_, _, _)          \* the bytes of a structure's fields; skip: its own base was written before
Enc(v, j, skip) ==
    IF j > Len(v) THEN << >>
    ELSE (IF v[j].t = "s" THEN Append(v[j].v, 0)
          ELSE IF v[j].t = "e"
               THEN IF skip /\ v[j].n = nBase /\ v[j].kn = nEvent THEN << >> ELSE Enc(v[j].f, 1, skip /\ v[j].n = nBase)
               ELSE Put(v[j].v)) \o Enc(v, j + 1, skip)
Write(k, head, v) ==
    /\ Len(log) < MaxEvents
    /\ LET bytes == Enc(head, 1, FALSE) \o (IF k = KEvent THEN << >> ELSE Enc(v, 1, TRUE))
           e == [k |-> k, kn |-> cls[k].n, head |-> head, v |-> v]
       IN /\ b' = b \o bytes
          /\ log' = Append(log, e)
          /\ cls' = Learn(e, cls)
          /\ ends' = Append(ends, Len(b) + Len(bytes))
          /\ cls' # << >>
    /\ UNCHANGED big

KA == <<0, 0, 0, 4>>
KB == <<0, 0, 1, 2>>
TS == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 0, 0, 0, 0, 0, 1, 128>>}
I == <<1, 2, 3, 4, 5, 6, 7, 8>>
Base(h) == [n |-> nBase, t |-> "e", kn |-> nEvent, f |-> h]
Texts == {<< >>, <<65>>, <<255, 1>>}
Sz(n) == <<0, 0, 0, 0, 0, 0, 0, n>>
KName(k) == IF k = KA THEN <<65>> ELSE <<66>>
DescK(k) == k \notin DOMAIN cls /\ LET h == Hd(KKlass, Sz(9), I) IN
    Write(KKlass, h, << [n |-> Asc("info_klass_id"), t |-> "u4", v |-> k], [n |-> Asc("event_klass_name"), t |-> "s", v |-> KName(k)], [n |-> Asc("field_count"), t |-> "u1", v |-> <<1>>] >>)
DescF(k, f) == LET h == Hd(KField, Sz(9), I) IN
    Write(KField, h, << [n |-> Asc("info_klass_id"), t |-> "u4", v |-> k], [n |-> Asc("field_type"), t |-> "s", v |-> f.t], [n |-> Asc("field_name"), t |-> "s", v |-> f.n],
                        [n |-> Asc("size"), t |-> "u8", v |-> Sz(f.size)], [n |-> Asc("data_type"), t |-> "u1", v |-> <<f.kind>>] >>)
FieldSet == { [n |-> nBase, t |-> nEvent, kind |-> 1, size |-> 24], [n |-> nBase, t |-> <<65>>, kind |-> 1, size |-> 24], [n |-> <<120>>, t |-> <<65>>, kind |-> 1, size |-> 24],
              [n |-> <<115>>, t |-> <<99>>, kind |-> 2, size |-> 8], [n |-> <<105>>, t |-> <<105>>, kind |-> 3, size |-> 2], [n |-> <<117>>, t |-> <<117>>, kind |-> 99, size |-> 8] }

\* all values of a class's fields
RECURSIVE Vals(_, _, _, _)
Vals(k, j, head, inh) ==
    IF j > Len(cls[k].f) THEN {<< >>}
    ELSE LET f == cls[k].f[j]
             here == CASE f.kind = TEXT -> {[n |-> f.n, t |-> "s", v |-> x] : x \in Texts}
                       [] f.kind = INT -> {[n |-> f.n, t |-> "i2", v |-> x] : x \in {<<128, 0>>, <<0, 1>>}}
                       [] f.kind = UINT -> {[n |-> f.n, t |-> TypeName(f), v |-> [y \in 1..f.size |-> IF y = 1 THEN 200 ELSE y]]}
                       [] f.kind = STRUCT ->
                            IF f.n = nBase /\ f.t = nEvent /\ inh THEN {Base(head)}
                            ELSE LET s == CHOOSE x \in Named(cls, f.t) : TRUE IN {[n |-> f.n, t |-> "e", kn |-> cls[s].n, f |-> x] : x \in Vals(s, 1, head, inh /\ f.n = nBase)}
         IN {<<x>> \o y : x \in here, y \in Vals(k, j + 1, head, inh)}
Ready(k) == k \in DOMAIN cls /\ \A j \in 1..Len(cls[k].f) : cls[k].f[j].kind = STRUCT => Named(cls, cls[k].f[j].t) # {}
WriteE == \E k \in {KA, KB}, ts \in TS : Ready(k) /\ LET h == Hd(k, ts, I) IN \E v \in Vals(k, 1, h, TRUE) : Write(k, h, v)
WritePlain == \E ts \in TS : LET h == Hd(KEvent, ts, I) IN Write(KEvent, h, h)
Init == /\ big \in BOOLEAN /\ cls = BootKlasses
        /\ b = << >> /\ log = << >> /\ ends = << >>
Start == log = << >> /\ LET h == Hd(KEndian, Sz(0), Sz(0)) IN Write(KEndian, h, << [n |-> Asc("endianness"), t |-> "u1", v |-> IF big THEN <<1>> ELSE <<0>>] >>)
Next == \/ Start
        \/ log # << >> /\ (\/ \E k \in {KA, KB} : DescK(k)
                           \/ \E k \in {KA, KB} \cap DOMAIN cls, f \in FieldSet : (f.kind = 1 => (f.t # <<65>> \/ k = KB)) /\ (\A j \in 1..Len(cls[k].f) : cls[k].f[j].n # f.n) /\ DescF(k, f)
                           \/ WriteE \/ WritePlain)
Spec == Init /\ [][Next]_vars

RECURSIVE ReadAll(_, _, _, _, _)
ReadAll(bytes, i, c, g, acc) ==
    LET e == Event(bytes, i, c, g) IN
    IF e.st # "ok" THEN acc
    ELSE ReadAll(bytes, e.nx, Learn(e, c), Order(e, g), Append(acc, [k |-> e.k, kn |-> e.kn, head |-> e.head, v |-> e.v]))
RoundTrip == ReadAll(b, 1, BootKlasses, FALSE, << >>) = log
\* (cuts before the last event were checked in the states before)
Cuts == LET from == IF Len(ends) < 2 THEN 0 ELSE ends[Len(ends) - 1] IN
        \A c \in from .. Len(b) - 1 : Len(log) > 0 => ReadAll(SubSeq(b, 1, c), 1, BootKlasses, FALSE, << >>) = SubSeq(log, 1, Len(log) - 1)
FlatOk == \A j \in 1..Len(log) : FlatMatches(Flat(log[j]), log[j]) \/ Cardinality({x.n : x \in Range(Flat(log[j]))}) < Len(Flat(log[j]))
=============================================================================
