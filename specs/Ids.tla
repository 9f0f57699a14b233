--------------------------------- MODULE Ids ---------------------------------
(* Identifiers handed out to concurrent callers: never twice, and growing    *)
(* for calls that do not overlap.  Thread identifiers: one per thread, never *)
(* shared, never zero, never reused.                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES given,   \* provider -> identifiers handed out
          open,    \* call in progress -> [p (provider), floor (largest identifier returned before it began)]
          tid,     \* thread -> its identifier
          many     \* identifiers of crowds of threads, as intervals
dvars == <<given, open, tid, many>>
IdInit == given = << >> /\ open = << >> /\ tid = << >> /\ many = {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Of(p) == IF p \in DOMAIN given THEN given[p] ELSE {}
Top(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
InvNext(c, p) == c \notin DOMAIN open /\ open' = Put(open, c, [p |-> p, floor |-> Top(Of(p))]) /\ UNCHANGED <<given, tid, many>>
RetNext(c, id) ==
    /\ c \in DOMAIN open
    /\ id \notin Of(open[c].p) /\ id > open[c].floor
    /\ given' = Put(given, open[c].p, Of(open[c].p) \cup {id})
    /\ open' = [x \in DOMAIN open \ {c} |-> open[x]] /\ UNCHANGED <<tid, many>>
Thread(t, id) ==
    /\ id # 0
    /\ IF t \in DOMAIN tid THEN tid[t] = id /\ tid' = tid
       ELSE (\A s \in DOMAIN tid : tid[s] # id) /\ (\A v \in many : id \notin v[1]..v[2]) /\ tid' = Put(tid, t, id)
    /\ UNCHANGED <<given, open, many>>
\* n threads came and went; iv: their identifiers as runs <<from, to>>
RECURSIVE Total(_, _)
Total(iv, k) == IF k > Len(iv) THEN 0 ELSE iv[k][2] - iv[k][1] + 1 + Total(iv, k + 1)
Apart(v, w) == v[2] < w[1] \/ w[2] < v[1]
Crowd(n, iv) ==
    /\ Total(iv, 1) = n
    /\ \A i \in 1..Len(iv) : /\ iv[i][1] > 0
                            /\ \A j \in 1..(i - 1) : Apart(iv[i], iv[j])
                            /\ \A v \in many : Apart(iv[i], v)
                            /\ \A s \in DOMAIN tid : tid[s] \notin iv[i][1]..iv[i][2]
    /\ many' = many \cup {iv[i] : i \in 1..Len(iv)}
    /\ UNCHANGED <<given, open, tid>>
ThreadsDistinct == \A s, t \in DOMAIN tid : tid[s] = tid[t] => s = t
=============================================================================
