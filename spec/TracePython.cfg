SPECIFICATION TSpec
CONSTANT Slots = {1, 2, 3, 4, 5, 6, 7}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
