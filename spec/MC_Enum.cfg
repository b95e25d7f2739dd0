INIT Init
NEXT Next
INVARIANT Agreement
