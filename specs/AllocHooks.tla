------------------------------ MODULE AllocHooks ------------------------------
(* The process's memory functions with hooks around them.  A hook set is a     *)
(* function from (operation, when) to the number of the registered function,   *)
(* 0 for none.  Pointers and sizes are texts; "null" is the null pointer.      *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES reg,      \* what is registered: [op -> [pre, post]]
          ud,       \* user data given with it
          live      \* blocks in use: pointer -> size
hvars == <<reg, ud, live>>
Ops == {"malloc", "calloc", "realloc", "free"}
None == [o \in Ops |-> [pre |-> 0, post |-> 0]]
HInit == reg = None /\ ud = "null" /\ live = << >>
Register(r, u) == reg' = r /\ ud' = u /\ UNCHANGED live
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Add(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* what the hooks of a call of op with arguments a and result r must see
Due(op, a, r) ==
    (IF reg[op].pre # 0 THEN <<[op |-> op, when |-> "pre", fn |-> reg[op].pre, a |-> a, ret |-> "null", ud |-> ud]>> ELSE << >>)
    \o (IF reg[op].post # 0 THEN <<[op |-> op, when |-> "post", fn |-> reg[op].post, a |-> a, ret |-> IF op = "free" THEN "null" ELSE r, ud |-> ud]>> ELSE << >>)
\* the operation itself; fits: the size is one the system can serve; room: not above it
Fresh(r) == r = "null" \/ r \notin DOMAIN live
New(r, size, fits, zero) == /\ fits => r # "null" \/ zero
                            /\ ~fits => r = "null"
                            /\ Fresh(r)
                            /\ live' = (IF r = "null" THEN live ELSE Add(live, r, size))
Resized(p, r, size, fits, zero) ==
    IF p = "null" THEN New(r, size, fits, zero)
    ELSE IF zero THEN live' = (IF r = "null" THEN Drop(live, p) ELSE Add(Drop(live, p), r, size))
    ELSE IF r = "null" THEN ~fits /\ UNCHANGED live
    ELSE fits /\ (r = p \/ r \notin DOMAIN live) /\ live' = Add(Drop(live, p), r, size)
Released(p) == live' = (IF p = "null" THEN live ELSE Drop(live, p))
=============================================================================
