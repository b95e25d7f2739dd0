INIT Init
NEXT Next
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
