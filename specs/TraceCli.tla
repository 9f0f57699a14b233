------------------------------ MODULE TraceCli ------------------------------
EXTENDS TraceBase, CommandLine
VARIABLES size,     \* buffer size of global timelines
          inits     \* calls of ht_init not yet matched by ht_deinit
vars == <<l, size, inits>>
Init == l = 1 /\ size = << >> /\ inits = 0
Keep == UNCHANGED <<size, inits>>
HelpOk(opts, app, h) ==
    /\ h.app = app
    /\ {<<h.opts[i].n, h.opts[i].val, h.opts[i].must, h.opts[i].help>> : i \in 1..Len(h.opts)}
         = {<<opts[i].n, ~opts[i].flag, opts[i].must, opts[i].help>> : i \in Known(opts)}
    /\ Len(h.opts) = Cardinality({opts[i].n : i \in Known(opts)})
Next ==
    \/ Is("Case") /\ Step /\ size' = << >> /\ inits' = 0
    \* the tools' parser
    \/ /\ Is("Parse") /\ Step /\ Keep
       /\ (\E ok \in {Accepted(ev.opts, ev.p, ev.args)} :
             /\ ev.ok = ok
             /\ ok => \A i \in 1..Len(ev.got) : Reports(ev.opts, ev.p, ev.args, ev.got[i])) = TRUE
       /\ HelpOk(ev.opts, ev.app, ev.help) = TRUE
    \* the library: size before, arguments, size after, initialised?, arguments after
    \/ Is("Size") /\ Step /\ size' = ev.size /\ inits' = 0 /\ ev.up = FALSE
    \/ /\ Is("Init") /\ Step /\ ev.up = TRUE /\ ev.args = ev.after
       /\ inits' = inits + 1
       /\ \E r \in {Lib(ev.args, 1, size)} : ~r.help /\ ev.size = r.size /\ size' = r.size
    \/ /\ Is("Deinit") /\ Step /\ size' = size
       /\ inits' = (IF inits > 0 THEN inits - 1 ELSE 0) /\ ev.up = (inits' > 0)
    \* help: the process ended with success, after all options were listed
    \/ /\ Is("Help") /\ Step /\ Keep
       /\ Lib(ev.args, 1, size).help /\ ev.code = 0 /\ ev.sizeopt /\ ev.helpopt
    \* a thread's first delivery: events of n bytes fill the buffer, larger ones go alone
    \/ /\ Is("First") /\ Step /\ Keep /\ size = ev.size
       /\ ev.bytes = (IF ev.n > ev.num THEN ev.n ELSE ev.n * (ev.num \div ev.n))
Spec == Init /\ [][Next]_vars
=============================================================================
