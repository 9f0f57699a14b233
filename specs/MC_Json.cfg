SPECIFICATION Spec
CONSTANTS Bytes = {1, 10, 31, 32, 34, 47, 92, 110, 117, 48, 127, 195}
 MaxLen = 4
INVARIANT RoundTrip
INVARIANT InArray
INVARIANT RawOnly
INVARIANT Unclosed
CHECK_DEADLOCK FALSE
