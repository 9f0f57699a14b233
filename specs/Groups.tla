-------------------------------- MODULE Groups --------------------------------
(* Listener groups under concurrency.  Every timeline is used by one thread  *)
(* at a time, timelines of the same group by different threads.  Listeners   *)
(* register before anything is pushed to their group.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
    tls,     \* timeline -> [g (group), st ("making", "idle", "push", "flush", "dying", "dead"), n (events pushed)]
    lst,     \* listener -> [g, st ("joining", "live", "gone")]
    pos,     \* <<listener, timeline>> -> events of the timeline it has received
    down     \* 0 the library is up, 1 deinit called, 2 deinit returned
gvars == <<tls, lst, pos, down>>
GInit == tls = << >> /\ lst = << >> /\ pos = << >> /\ down = 0

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Key(t, name) == IF name = "" THEN <<"", t>> ELSE <<name, 0>>
Of(g) == {t \in DOMAIN tls : tls[t].g = g}
On(g) == {x \in DOMAIN lst : lst[x].g = g}
At(x, t) == IF <<x, t>> \in DOMAIN pos THEN pos[<<x, t>>] ELSE 0
Full(x, t) == At(x, t) = tls[t].n
Named(g) == g[2] = 0

InvCreate(t, name) == t \notin DOMAIN tls /\ (name # "" => down = 0)
                      /\ tls' = Put(tls, t, [g |-> Key(t, name), st |-> "making", n |-> 0]) /\ UNCHANGED <<lst, pos, down>>
RetCreate(t) == t \in DOMAIN tls /\ tls[t].st = "making" /\ tls' = [tls EXCEPT ![t].st = "idle"] /\ UNCHANGED <<lst, pos, down>>
InvReg(x, t) == /\ x \notin DOMAIN lst /\ t \in DOMAIN tls /\ tls[t].st = "idle"
                /\ \A s \in Of(tls[t].g) : tls[s].n = 0
                /\ lst' = Put(lst, x, [g |-> tls[t].g, st |-> "joining"]) /\ UNCHANGED <<tls, pos, down>>
RetReg(x) == x \in DOMAIN lst /\ lst[x].st = "joining" /\ lst' = [lst EXCEPT ![x].st = "live"] /\ UNCHANGED <<tls, pos, down>>
InvPush(t) == /\ t \in DOMAIN tls /\ tls[t].st = "idle"
              /\ \A x \in On(tls[t].g) : lst[x].st # "joining"
              /\ tls' = [tls EXCEPT ![t].st = "push", ![t].n = @ + 1] /\ UNCHANGED <<lst, pos, down>>
RetPush(t) == t \in DOMAIN tls /\ tls[t].st = "push" /\ tls' = [tls EXCEPT ![t].st = "idle"] /\ UNCHANGED <<lst, pos, down>>
InvFlush(t) == t \in DOMAIN tls /\ tls[t].st = "idle" /\ tls' = [tls EXCEPT ![t].st = "flush"] /\ UNCHANGED <<lst, pos, down>>
RetFlush(t) == /\ t \in DOMAIN tls /\ tls[t].st = "flush" /\ \A x \in On(tls[t].g) : Full(x, t)
               /\ tls' = [tls EXCEPT ![t].st = "idle"] /\ UNCHANGED <<lst, pos, down>>
\* listener x receives the next k events of timeline t
Deliver(x, t, k) ==
    /\ t \in DOMAIN tls /\ tls[t].st \in {"push", "flush", "dying"}
    /\ x \in On(tls[t].g) /\ lst[x].st = "live"
    /\ At(x, t) + k <= tls[t].n
    /\ pos' = Put(pos, <<x, t>>, At(x, t) + k) /\ UNCHANGED <<tls, lst, down>>
InvDestroy(t) == t \in DOMAIN tls /\ tls[t].st = "idle" /\ tls' = [tls EXCEPT ![t].st = "dying"] /\ UNCHANGED <<lst, pos, down>>
\* may the group's listeners be released, must they have been?
MayGo(g) == /\ \A t \in Of(g) : tls[t].st \in {"dying", "dead"}
            /\ Named(g) => down > 0
MustBeGone(g, T) == /\ \A s \in Of(g) \ T : tls[s].st = "dead"
                    /\ Named(g) => down = 2
LGone(x) ==
    /\ x \in DOMAIN lst /\ lst[x].st = "live" /\ MayGo(lst[x].g)
    /\ \A t \in Of(lst[x].g) : Full(x, t)
    /\ lst' = [lst EXCEPT ![x].st = "gone"] /\ UNCHANGED <<tls, pos, down>>
RetDestroy(t) ==
    /\ t \in DOMAIN tls /\ tls[t].st = "dying"
    /\ \A x \in On(tls[t].g) : Full(x, t)
    /\ MustBeGone(tls[t].g, {t}) => \A x \in On(tls[t].g) : lst[x].st = "gone"
    /\ tls' = [tls EXCEPT ![t].st = "dead"] /\ UNCHANGED <<lst, pos, down>>
InvDeinit == down = 0 /\ down' = 1 /\ (\A t \in DOMAIN tls : tls[t].st # "making" \/ ~Named(tls[t].g)) /\ UNCHANGED <<tls, lst, pos>>
RetDeinit == /\ down = 1 /\ down' = 2
             /\ \A x \in DOMAIN lst : Named(lst[x].g) /\ (\A t \in Of(lst[x].g) : tls[t].st = "dead") => lst[x].st = "gone"
             /\ UNCHANGED <<tls, lst, pos>>
\* ---------------------------------------------------------------- consequences
GSane ==
    /\ \A x \in DOMAIN lst : lst[x].st = "gone" => \A t \in Of(lst[x].g) : tls[t].st \in {"dying", "dead"} /\ Full(x, t)
    /\ \A t \in DOMAIN tls : tls[t].st = "dead" => \A x \in On(tls[t].g) : Full(x, t)
    /\ \A p \in DOMAIN pos : pos[p] <= tls[p[2]].n /\ lst[p[1]].g = tls[p[2]].g
AllOver == (\A t \in DOMAIN tls : tls[t].st = "dead") /\ down = 2 => \A x \in DOMAIN lst : lst[x].st = "gone"
=============================================================================
