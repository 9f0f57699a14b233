------------------------------ MODULE TraceAlloc ------------------------------
EXTENDS TraceBase, AllocLib
vars == <<l, own, named, tl, lis, sch, kls, srv>>
Init == l = 1 /\ AInit
D == [b |-> ev.db, f |-> ev.df]
\* owners of files and sockets use the C library, whose own memory is not the user's concern
Stdio(g) == g \in DOMAIN lis /\ \E k \in 1..Len(lis[g]) : lis[g][k].kind \in {"file", "tcp"}
Clean == /\ ev.bad = 0                               \* nothing foreign resized or released, nothing twice
         /\ ev.live = Live'.b
         /\ ev.foreign # 0 => ev.e \in {"Global", "Serve", "New", "Finish"} \/ (ev.e = "Register" /\ ev.kind \in {"file", "tcp"}) \/ (Has(ev, "t") /\ ev.t \in DOMAIN tl /\ Stdio(tl[ev.t].g))
Next ==
    \/ Is("Case") /\ Step /\ own' = << >> /\ named' = {} /\ tl' = << >> /\ lis' = << >> /\ sch' = << >> /\ kls' = 0 /\ srv' = << >>
    \/ Is("Up") /\ Step /\ Start0(ev.classes, D) /\ Clean
    \/ Is("Finish") /\ Step /\ Finish(ev.destroyed, D) /\ Clean
    \/ Is("Create") /\ Step /\ Create(ev.t, ev.name, ev.ser, ev.ok, ev.fail, D) /\ Clean
    \/ Is("Destroy") /\ Step /\ DestroyTl(ev.t, ev.destroyed, D) /\ Clean
    \/ Is("Register") /\ Step /\ Register(ev.t, ev.i, ev.kind, ev.possible, ev.wide, ev.ok, ev.fail, D) /\ Clean
    \/ Is("Unregister") /\ Step /\ Unregister(ev.t, ev.destroyed, D) /\ Clean
    \/ Is("Enable") /\ Step /\ Enable(ev.t, ev.feat, ev.ok, ev.fail, D) /\ Clean
    \/ Is("Push") /\ Step /\ Emit(ev.t, ev.ss, ev.us, ev.got, ev.fail, D) /\ Clean
    \/ Is("Label") /\ Step /\ Label(ev.t, ev.x, ev.ok, ev.ss, ev.us, ev.got, ev.fail, D) /\ Clean
    \/ Is("Start") /\ Step /\ Start(ev.t, ev.label, ev.ss, ev.us, ev.fail, D) /\ Clean
    \/ Is("Stop") /\ Step /\ Stop(ev.t, ev.label, ev.got, ev.fail, D) /\ Clean
    \/ Is("Global") /\ Step /\ Global(ev.ok, ev.used, ev.fail, D) /\ Clean
    \/ Is("New") /\ Step /\ New(ev.o, ev.kind, ev.ok, ev.fail, D) /\ Clean
    \/ Is("Free") /\ Step /\ Free(ev.o, D) /\ Clean
    \/ Is("Schedule") /\ Step /\ Schedule(ev.s, ev.id, ev.keep, ev.fail, D) /\ Clean
    \/ Is("Tick") /\ Step /\ Tick(ev.s, ev.ran, D) /\ Clean
    \/ Is("Remove") /\ Step /\ RemoveTask(ev.s, ev.id, ev.ok, D) /\ Clean
    \/ Is("Class") /\ Step /\ RegisterClass(ev.id, ev.count, ev.fail, D) /\ Clean
    \/ Is("Serve") /\ Step /\ StartServer(ev.o, ev.ok, ev.fail, D) /\ Clean
    \/ Is("Client") /\ Step /\ AddClient(ev.o, ev.c, ev.ok, ev.fail, D) /\ Clean
    \/ Is("Leave") /\ Step /\ ClientLeaves(ev.o, ev.c)
    \/ Is("Send") /\ Step /\ Send(ev.o, ev.n, ToSet(ev.got), D) /\ Clean
Spec == Init /\ [][Next]_vars
=============================================================================
