-------------------------------- MODULE Labels --------------------------------
(* Cached labels on a timeline.  A label is a key ("s" address / "d" text);  *)
(* calls may overlap.  Counting announcements: lo and hi bound how many of a *)
(* label's announcements the calls made so far account for.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
    text,    \* key -> its text
    id,      \* key -> identifier, once a call returned it
    seen,    \* identifier -> [n (announcements delivered), text]
    opening, \* key -> number of calls for it in progress that may be the first
    maps,    \* re-sends in progress: call -> keys known when it began
    lo, hi,  \* key -> announcements that must / may have been pushed
    uses     \* identifier -> uses delivered
lvars == <<text, id, seen, opening, maps, lo, hi, uses>>
LInit == text = << >> /\ id = << >> /\ seen = << >> /\ opening = << >> /\ maps = << >> /\ lo = << >> /\ hi = << >> /\ uses = << >>
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

InvAdd(k, tx) ==
    /\ (k \in DOMAIN text => text[k] = tx)
    /\ text' = Put(text, k, tx)
    /\ opening' = Put(opening, k, Get(opening, k, 0) + 1)
    \* the first use announces it, and every re-send in progress may
    /\ hi' = IF k \in DOMAIN hi THEN hi ELSE Put(hi, k, 1 + Cardinality(DOMAIN maps))
    /\ UNCHANGED <<id, seen, maps, lo, uses>>
RetAdd(k, i) ==
    /\ Get(opening, k, 0) > 0 /\ opening' = [opening EXCEPT ![k] = @ - 1]
    /\ i # "0"
    /\ IF k \in DOMAIN id THEN id[k] = i /\ UNCHANGED <<id, lo>>          \* always the same
       ELSE /\ \A j \in DOMAIN id : id[j] # i                             \* distinct
            /\ id' = Put(id, k, i) /\ lo' = Put(lo, k, 1)
    /\ UNCHANGED <<text, seen, maps, hi, uses>>
InvMap(c) == /\ maps' = Put(maps, c, DOMAIN id)
             /\ hi' = [k \in DOMAIN hi |-> hi[k] + 1]
             /\ UNCHANGED <<text, id, seen, opening, lo, uses>>
RetMap(c) == /\ c \in DOMAIN maps
             /\ lo' = [k \in DOMAIN lo |-> IF k \in maps[c] THEN lo[k] + 1 ELSE lo[k]]
             /\ maps' = [x \in DOMAIN maps \ {c} |-> maps[x]]
             /\ UNCHANGED <<text, id, seen, opening, hi, uses>>
\* an announcement (i, tx) is delivered: of a label some call asked for
Announced(i, tx) ==
    /\ \E k \in DOMAIN text : /\ text[k] = tx
                              /\ (k \in DOMAIN id => id[k] = i)
                              /\ Get(seen, i, [n |-> 0, text |-> tx]).n < hi[k]
                              /\ (k \notin DOMAIN id => \A j \in DOMAIN id : id[j] # i)
    /\ (i \in DOMAIN seen => seen[i].text = tx)
    /\ seen' = Put(seen, i, [n |-> Get(seen, i, [n |-> 0, text |-> tx]).n + 1, text |-> tx])
    /\ UNCHANGED <<text, id, opening, maps, lo, hi, uses>>
\* an event that uses identifier i is delivered: it is known by then
Used(i) == /\ i \in DOMAIN seen /\ uses' = Put(uses, i, Get(uses, i, 0) + 1)
           /\ UNCHANGED <<text, id, seen, opening, maps, lo, hi>>
\* everything pushed has been delivered, no call is open
Settled ==
    /\ \A k \in DOMAIN opening : opening[k] = 0
    /\ maps = << >>
    /\ \A k \in DOMAIN id : /\ id[k] \in DOMAIN seen
                            /\ seen[id[k]].text = text[k] /\ seen[id[k]].n >= lo[k] /\ seen[id[k]].n <= hi[k]
    /\ UNCHANGED lvars
\* nothing is announced that nobody asked for
Justified == \A i \in DOMAIN seen : \E k \in DOMAIN text : text[k] = seen[i].text
Distinct == Cardinality({id[k] : k \in DOMAIN id}) = Cardinality(DOMAIN id)
=============================================================================
