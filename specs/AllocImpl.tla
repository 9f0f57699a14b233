------------------------------ MODULE AllocImpl ------------------------------
(* How ht_timeline_create acquires its parts and unwinds when one of them    *)
(* can't be had, and how the named groups are counted.  Any allocation may   *)
(* fail.  Each block is <<what, whose>>; blocks are returned exactly once.   *)
(* Bug: "keep" forgets the buffer on the path where the group failed,        *)
(* "twice" unrefs a group that could not be registered twice, "silent"       *)
(* ignores a failed lock, "leakref" keeps the reference of the failed call.  *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Timelines, Names, Bug
VARIABLES pc, live, reg, refs, grp, res, wrong
vars == <<pc, live, reg, refs, grp, res, wrong>>
None == "none"
\* a group is known by the timeline whose creation made it
Init == /\ pc = [t \in Timelines |-> "idle"] /\ live = {} /\ reg = [n \in Names |-> None]
        /\ refs = [t \in Timelines |-> 0] /\ grp = [t \in Timelines |-> None] /\ res = [t \in Timelines |-> "-"] /\ wrong = FALSE
Free(S) == live' = live \ S /\ wrong' = (wrong \/ ~(S \subseteq live))
Busy == \E t \in Timelines : pc[t] \notin {"idle", "up"}     \* one call at a time
GroupBlocks(g) == {<<"group", g>>, <<"entries", g>>, <<"gmutex", g>>} \cup ({<<"gname", g>>} \cap live)
Alloc(t, what, next, err) ==
    \/ pc' = [pc EXCEPT ![t] = next] /\ live' = live \cup {<<what, t>>} /\ UNCHANGED <<reg, refs, grp, res, wrong>>
    \/ pc' = [pc EXCEPT ![t] = err] /\ UNCHANGED <<live, reg, refs, grp, res, wrong>>
Unref(g, extra) ==   \* gives the group's memory back with the last reference
    IF refs[g] = 1 THEN Free(GroupBlocks(g) \cup extra) ELSE Free(extra)
Begin(t, n) == /\ pc[t] = "idle" /\ ~Busy /\ refs[t] = 0 /\ <<"group", t>> \notin live
               /\ pc' = [pc EXCEPT ![t] = "tl"] /\ grp' = [grp EXCEPT ![t] = n] /\ res' = [res EXCEPT ![t] = "-"]
               /\ UNCHANGED <<live, reg, refs, wrong>>
\* while creating, grp holds the wanted name, afterwards the group
Step(t) ==
    \/ pc[t] = "tl" /\ Alloc(t, "tl", "buf", "fail")
    \/ pc[t] = "buf" /\ Alloc(t, "buf", "find", "e_buf")
    \/ /\ pc[t] = "find"
       /\ IF grp[t] # None /\ reg[grp[t]] # None
          THEN /\ refs' = [refs EXCEPT ![reg[grp[t]]] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "lock"]
               /\ grp' = [grp EXCEPT ![t] = reg[grp[t]]] /\ UNCHANGED <<live, reg, res, wrong>>
          ELSE pc' = [pc EXCEPT ![t] = "group"] /\ UNCHANGED <<live, reg, refs, grp, res, wrong>>
    \/ pc[t] = "group" /\ Alloc(t, "group", "entries", "e_find")
    \/ pc[t] = "entries" /\ Alloc(t, "entries", "gmutex", "e_entries")
    \/ pc[t] = "gmutex" /\ \/ /\ pc' = [pc EXCEPT ![t] = IF grp[t] = None THEN "lock" ELSE "gname"] /\ live' = live \cup {<<"gmutex", t>>}
                              /\ refs' = [refs EXCEPT ![t] = 1] /\ grp' = [grp EXCEPT ![t] = IF @ = None THEN t ELSE @] /\ UNCHANGED <<reg, res, wrong>>
                           \/ pc' = [pc EXCEPT ![t] = "e_gmutex"] /\ UNCHANGED <<live, reg, refs, grp, res, wrong>>
    \/ pc[t] = "gname" /\ Alloc(t, "gname", "slot", "e_reg")
    \/ pc[t] = "slot" /\ \/ /\ reg' = [reg EXCEPT ![grp[t]] = t] /\ refs' = [refs EXCEPT ![t] = 2] /\ grp' = [grp EXCEPT ![t] = t]
                            /\ pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED <<live, res, wrong>>
                         \/ pc' = [pc EXCEPT ![t] = "e_reg"] /\ UNCHANGED <<live, reg, refs, grp, res, wrong>>
    \/ pc[t] = "lock" /\ \/ pc' = [pc EXCEPT ![t] = "up"] /\ live' = live \cup {<<"lock", t>>} /\ res' = [res EXCEPT ![t] = "ok"] /\ UNCHANGED <<reg, refs, grp, wrong>>
                         \/ IF Bug = "silent" THEN pc' = [pc EXCEPT ![t] = "up"] /\ res' = [res EXCEPT ![t] = "ok"] /\ UNCHANGED <<live, reg, refs, grp, wrong>>
                            ELSE pc' = [pc EXCEPT ![t] = "e_lock"] /\ UNCHANGED <<live, reg, refs, grp, res, wrong>>
    \* unwinding
    \/ pc[t] = "e_gmutex" /\ pc' = [pc EXCEPT ![t] = "e_entries"] /\ Free({<<"entries", t>>}) /\ UNCHANGED <<reg, refs, grp, res>>
    \/ pc[t] = "e_entries" /\ pc' = [pc EXCEPT ![t] = "e_find"] /\ Free({<<"group", t>>}) /\ UNCHANGED <<reg, refs, grp, res>>
    \/ pc[t] = "e_reg" /\ pc' = [pc EXCEPT ![t] = IF Bug = "twice" THEN "e_reg2" ELSE "e_find"] /\ Unref(t, {}) /\ refs' = [refs EXCEPT ![t] = @ - 1] /\ UNCHANGED <<reg, grp, res>>
    \/ pc[t] = "e_reg2" /\ pc' = [pc EXCEPT ![t] = "e_find"] /\ Free({<<"group", t>>}) /\ UNCHANGED <<reg, refs, grp, res>>
    \/ pc[t] = "e_lock" /\ pc' = [pc EXCEPT ![t] = "e_find"]
       /\ (IF Bug = "leakref" THEN UNCHANGED <<live, wrong, refs>> ELSE Unref(grp[t], {}) /\ refs' = [refs EXCEPT ![grp[t]] = @ - 1])
       /\ UNCHANGED <<reg, grp, res>>
    \/ pc[t] = "e_find" /\ pc' = [pc EXCEPT ![t] = "e_buf"] /\ (IF Bug = "keep" THEN UNCHANGED <<live, wrong>> ELSE Free({<<"buf", t>>})) /\ UNCHANGED <<reg, refs, grp, res>>
    \/ pc[t] = "e_buf" /\ pc' = [pc EXCEPT ![t] = "fail"] /\ Free({<<"tl", t>>}) /\ UNCHANGED <<reg, refs, grp, res>>
    \/ pc[t] = "fail" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ res' = [res EXCEPT ![t] = "failed"] /\ grp' = [grp EXCEPT ![t] = None] /\ UNCHANGED <<live, reg, refs, wrong>>
Destroy(t) == /\ pc[t] = "up" /\ ~Busy
              /\ Unref(grp[t], {<<"buf", t>>, <<"tl", t>>, <<"lock", t>>}) /\ refs' = [refs EXCEPT ![grp[t]] = @ - 1]
              /\ pc' = [pc EXCEPT ![t] = "idle"] /\ grp' = [grp EXCEPT ![t] = None] /\ res' = [res EXCEPT ![t] = "-"] /\ UNCHANGED reg
Deinit == /\ ~Busy /\ \A t \in Timelines : pc[t] = "idle"
          /\ \E n \in Names : reg[n] # None
          /\ LET gs == {reg[n] : n \in {m \in Names : reg[m] # None}} IN
             /\ Free(UNION {IF refs[g] = 1 THEN GroupBlocks(g) ELSE {} : g \in gs})
             /\ refs' = [t \in Timelines |-> IF t \in gs THEN refs[t] - 1 ELSE refs[t]]
          /\ reg' = [n \in Names |-> None] /\ UNCHANGED <<pc, grp, res>>
Next == Deinit \/ \E t \in Timelines : Step(t) \/ Destroy(t) \/ \E n \in Names \cup {None} : Begin(t, n)
Spec == Init /\ [][Next]_vars
\* ---- the contract
Idle == ~Busy
Kept == {reg[n] : n \in {m \in Names : reg[m] # None}}       \* groups the library keeps
ReleasedOnce == ~wrong
\* whatever belongs to no timeline and no registered group has been given back
NothingLost == Idle => \A b \in live : \/ pc[b[2]] = "up" \/ b[2] \in Kept
                                       \/ \E t \in Timelines : pc[t] = "up" /\ grp[t] = b[2]
\* a timeline that is reported to exist is complete
Complete == \A t \in Timelines : pc[t] = "up" => {<<"tl", t>>, <<"buf", t>>, <<"lock", t>>, <<"group", grp[t]>>, <<"entries", grp[t]>>, <<"gmutex", grp[t]>>} \subseteq live
\* nobody else suffers: registered groups stay complete
Others == \A g \in Kept : {<<"group", g>>, <<"entries", g>>, <<"gmutex", g>>, <<"gname", g>>} \subseteq live
Counted == Idle => \A g \in Timelines : refs[g] = (IF g \in Kept THEN 1 ELSE 0) + Cardinality({t \in Timelines : pc[t] = "up" /\ grp[t] = g})
=============================================================================
