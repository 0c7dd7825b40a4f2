SPECIFICATION Spec
INVARIANTS Ids Subs Walks
CONSTANTS MAXN = 2 MAXK = 2 MAXC = 3
CHECK_DEADLOCK FALSE
