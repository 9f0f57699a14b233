------------------------------ MODULE NetStream ------------------------------
(* A TCP client stream: the bytes of its current connection, and what reads  *)
(* may return.                                                               *)
EXTENDS Naturals, Sequences
VARIABLES
    sent,     \* sent[k]: bytes the server sent over its k-th connection
    closed,   \* connections the server has closed
    cur,      \* current connection of the stream: 0 none yet
    pos,      \* bytes of it handed out
    broken,   \* a block read failed: what it had taken is lost, the stream is at its end
    stops     \* a stop has begun since the last start
nvars == <<sent, closed, cur, pos, broken, stops>>
NInit == sent = << >> /\ closed = {} /\ cur = 0 /\ pos = 0 /\ broken = FALSE /\ stops = FALSE
NReset == sent' = << >> /\ closed' = {} /\ cur' = 0 /\ pos' = 0 /\ broken' = FALSE /\ stops' = FALSE
Of(k) == IF k \in DOMAIN sent THEN sent[k] ELSE << >>
Send(k, b) == k \notin closed /\ sent' = [x \in DOMAIN sent \cup {k} |-> IF x = k THEN Of(k) \o b ELSE sent[x]] /\ UNCHANGED <<closed, cur, pos, broken, stops>>
Close(k) == closed' = closed \cup {k} /\ UNCHANGED <<sent, cur, pos, broken, stops>>
\* starting again drops what was not read
Started == cur' = cur + 1 /\ pos' = 0 /\ broken' = FALSE /\ stops' = FALSE /\ UNCHANGED <<sent, closed>>
ReadGot(b) ==
    /\ cur # 0 /\ ~broken
    /\ pos + Len(b) <= Len(Of(cur))
    /\ SubSeq(Of(cur), pos + 1, pos + Len(b)) = b
    /\ pos' = pos + Len(b)
    /\ UNCHANGED <<sent, closed, cur, broken, stops>>
\* n bytes were wanted
ReadEnd(n) ==
    /\ cur = 0 \/ broken \/ stops \/ (cur \in closed /\ Len(Of(cur)) - pos < n)
    /\ broken' = TRUE
    /\ UNCHANGED <<sent, closed, cur, pos, stops>>
StopCalled == stops' = TRUE /\ UNCHANGED <<sent, closed, cur, pos, broken>>
=============================================================================
