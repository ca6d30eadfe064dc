INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Symmetric PairByPair Shrinks Cancels
PROPERTIES Laws
