INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Symmetric Shrinks Staged
PROPERTIES Laws
