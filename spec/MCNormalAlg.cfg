INIT Init
NEXT Next
VIEW View
INVARIANT PSD
INVARIANT Algebra
INVARIANT KLLaws
INVARIANT W2Laws
CHECK_DEADLOCK FALSE
