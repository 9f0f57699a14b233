------------------------------ MODULE MC_Timeline ----------------------------
EXTENDS TimelineImpl
mcThreads == {"a", "b", "c"}
mcListeners == <<"L1", "L2">>
mcScript == [a |-> <<1, 2, 101>>, b |-> <<3, 102, 4>>, c |-> <<5>>]
mcThreadsQ == {"a", "b"}
mcScriptQ == [a |-> <<1, 2, 101>>, b |-> <<3, 102, 4>>]
\* one event larger than the buffer, one exactly as large, several small
mcSize == <<1, 4, 2, 1, 3>>
=============================================================================
