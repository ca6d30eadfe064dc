INIT Init
NEXT Next
VIEW View
INVARIANT Answerable
INVARIANT Once
PROPERTY Diagonal
CHECK_DEADLOCK FALSE
