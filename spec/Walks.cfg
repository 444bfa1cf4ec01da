INIT Init
NEXT Next
CONSTANT MaxLen = 6
INVARIANTS WalksCounted Symmetric
CHECK_DEADLOCK FALSE
