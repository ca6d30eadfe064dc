INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Symmetric Shrinks Bound Exactness
PROPERTIES Laws
