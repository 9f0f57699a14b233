-------------------------------- MODULE Amalg --------------------------------
(* The amalgamated library's files: a configuration, a header and a source   *)
(* file (C or C++), made by runs that may overlap and may be killed.  At any *)
(* time a file is not there, or whole: what a compiler takes, what any number*)
(* of files of a program can include, what behaves as the library.           *)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES runs,    \* run -> [cpp, st: "on" | "done" | "killed"]
          lying    \* files of the directory that have been seen there
dvars == <<runs, lying>>
Names == {"g", "h", "c", "x"}        \* configuration, header, C source, C++ source
Makes(cpp) == {"g", "h", IF cpp THEN "x" ELSE "c"}
Put(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
DInit == runs = << >> /\ lying = {}
Start(k, cpp) == k \notin DOMAIN runs /\ runs' = Put(runs, k, [cpp |-> cpp, st |-> "on"]) /\ UNCHANGED lying
Stop(k, how) == k \in DOMAIN runs /\ runs[k].st = "on" /\ runs' = [runs EXCEPT ![k].st = how] /\ UNCHANGED lying
End(k, rc) == rc = 0 /\ Stop(k, "done")
Kill(k) == Stop(k, "killed")
Due == UNION {Makes(runs[k].cpp) : k \in {q \in DOMAIN runs : runs[q].st = "done"}}
Possible == UNION {Makes(runs[k].cpp) : k \in DOMAIN runs}
\* st: file -> "absent" | "whole" | "broken"; a source without its header or configuration is just "there"
OneFile(f, st) ==
    /\ st[f] # "broken"
    /\ st[f] = "absent" => f \notin lying \cup Due          \* what was there stays, what was finished is there
    /\ st[f] # "absent" => f \in Possible
    /\ st[f] = "there" => f # "g" /\ (st["g"] = "absent" \/ (f # "h" /\ st["h"] = "absent"))
See(st) == (\A f \in Names : OneFile(f, st)) /\ lying' = {f \in Names : st[f] # "absent"} /\ UNCHANGED runs
=============================================================================
