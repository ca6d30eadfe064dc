INIT Init
NEXT Next
VIEW View
INVARIANT NoRebuild
PROPERTY Stable
CHECK_DEADLOCK FALSE
