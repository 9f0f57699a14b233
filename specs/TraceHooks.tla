------------------------------ MODULE TraceHooks ------------------------------
EXTENDS TraceBase, AllocHooks
vars == <<l, reg, ud, live>>
Init == l = 1 /\ HInit
\* hook calls as recorded, without what the hook saw of the memory
Plain(h) == [op |-> h.op, when |-> h.when, fn |-> h.fn, a |-> h.a, ret |-> h.ret, ud |-> h.ud]
\* before the operation an old block still is what it was; after it, a large block that was released is gone
Seen(h) == /\ h.when = "pre" => h.old # "gone" /\ h.old # "changed"
           /\ h.when = "post" /\ h.op = "free" => h.old # "there"
Effect == CASE ev.op \in {"malloc", "calloc"} -> New(ev.ret, ev.size, ev.fits, ev.zero)
            [] ev.op = "realloc" -> Resized(ev.a[1], ev.ret, ev.size, ev.fits, ev.zero)
            [] ev.op = "free" -> Released(ev.a[1])
Next ==
    \/ Is("Case") /\ Step /\ reg' = None /\ ud' = "null" /\ live' = << >>
    \/ Is("Register") /\ Step /\ Register(ev.reg, ev.ud)
    \/ /\ Is("Call") /\ Step /\ UNCHANGED <<reg, ud>>
       /\ Len(ev.hooks) = Len(IF ev.skip THEN << >> ELSE Due(ev.op, ev.a, ev.ret))
       /\ [k \in 1..Len(ev.hooks) |-> Plain(ev.hooks[k])] = (IF ev.skip THEN << >> ELSE Due(ev.op, ev.a, ev.ret))
       /\ \A k \in 1..Len(ev.hooks) : Seen(ev.hooks[k])
       /\ ev.good       \* contents kept or cleared, alignment, other blocks unharmed
       /\ Effect
    \* calls made for the caller by the language's runtime and the C library
    \/ /\ Is("Indirect") /\ Step /\ UNCHANGED hvars
       /\ ev.good
       /\ LET want == Due("malloc", ev.a, ev.ret) \o Due("free", <<ev.ret>>, "null") IN
          [k \in 1..Len(ev.hooks) |-> Plain(ev.hooks[k])] = want
Spec == Init /\ [][Next]_vars
=============================================================================
