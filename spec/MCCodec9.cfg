SPECIFICATION Spec
INVARIANTS RoundTrip PrefixFree
CONSTANTS MAXLEN = 9 MAXBYTE = 4
CHECK_DEADLOCK FALSE
