SPECIFICATION Spec
INVARIANTS Ids Subs Walks
CONSTANTS MAXN = 3 MAXK = 2 MAXC = 2
CHECK_DEADLOCK FALSE
