INIT Init
NEXT Next
CONSTANT MaxLen = 12
INVARIANTS WalksCounted Symmetric
CHECK_DEADLOCK FALSE
