SPECIFICATION Spec
INVARIANTS RoundTrip PrefixFree
CONSTANTS MAXLEN = 7 MAXBYTE = 4
CHECK_DEADLOCK FALSE
