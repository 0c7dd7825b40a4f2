SPECIFICATION MCSpec
CONSTANTS K = 6
Obj = {"x", "y"}
INVARIANTS TypeOK Canonical Denotes EqualIffSameRanges ComplementRanges AnswersConsistent DeMorgan
CHECK_DEADLOCK FALSE
