-------------------------------- MODULE Meta ---------------------------------
(* The metadata of a stream: what it has to say about the registered classes.*)
(* A class is identified by its name here; kl maps names to descriptions:    *)
(* f, the sequence of its fields [n, t, size (8 bytes), kind].               *)
EXTENDS Wire

\* floating point members are announced too, though readers of today cannot use them
LearnAll(e, cls) ==
    IF e.k = KField /\ SmallNum(Get(e, "data_type")) \in {4, 5} /\ Get(e, "info_klass_id") \in DOMAIN cls
    THEN [cls EXCEPT ![Get(e, "info_klass_id")].f = Append(@, [n |-> Get(e, "field_name"), t |-> Get(e, "field_type"), kind |-> SmallNum(Get(e, "data_type")), size |-> SmallNum(Get(e, "size"))])]
    ELSE Learn(e, cls)
\* the descriptions found in bytes b: [ok, first, ds], ds a sequence of [id, n, cnt, f]
RECURSIVE Scan(_, _, _, _, _, _)
Scan(b, i, cls, big, ds, j) ==
    IF i > Len(b) THEN [ok |-> TRUE, ds |-> ds, n |-> j, big |-> big]
    ELSE LET e == Event(b, i, cls, big) IN
         IF e.st # "ok" THEN [ok |-> FALSE, ds |-> ds, n |-> j, big |-> big]
         ELSE IF (j = 0) # (e.k = KEndian) THEN [ok |-> FALSE, ds |-> ds, n |-> j, big |-> big]
         ELSE LET c == LearnAll(e, cls)
                  at == IF e.k # KField THEN 0 ELSE
                        IF \E x \in 1..Len(ds) : ds[x].id = Get(e, "info_klass_id") THEN CHOOSE x \in 1..Len(ds) : ds[x].id = Get(e, "info_klass_id") ELSE 0
                  d == CASE e.k = KKlass -> Append(ds, [id |-> Get(e, "info_klass_id"), n |-> Get(e, "event_klass_name"), cnt |-> Get(e, "field_count"), f |-> << >>])
                         [] e.k = KField /\ at # 0 -> [ds EXCEPT ![at].f = Append(@, [n |-> Get(e, "field_name"), t |-> Get(e, "field_type"), size |-> Get(e, "size"), kind |-> Get(e, "data_type")[1]])]
                         [] OTHER -> ds
              IN IF c = << >> \/ (e.k = KField /\ at = 0) THEN [ok |-> FALSE, ds |-> ds, n |-> j, big |-> big]
                 ELSE Scan(b, e.nx, c, Order(e, big), d, j + 1)
Described(b) == Scan(b, 1, BootKlasses, FALSE, << >>, 0)
Word(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
\* well formed, each class once, dense identifiers, and every description is the declared one
WellDescribed(r, kl, endian) ==
    /\ r.ok /\ r.n > 0 /\ r.big = endian
    /\ {r.ds[x].id : x \in 1..Len(r.ds)} = {Word(x) : x \in 0..Len(r.ds) - 1}
    /\ Cardinality({r.ds[x].n : x \in 1..Len(r.ds)}) = Len(r.ds)
    /\ \A x \in 1..Len(r.ds) :
         /\ r.ds[x].n \in DOMAIN kl
         /\ r.ds[x].f = kl[r.ds[x].n]
         /\ r.ds[x].cnt = <<Len(r.ds[x].f)>>
NamesIn(r) == {r.ds[x].n : x \in 1..Len(r.ds)}
IdOf(r, n) == r.ds[CHOOSE x \in 1..Len(r.ds) : r.ds[x].n = n].id
=============================================================================
