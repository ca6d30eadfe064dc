INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneToOne NamesExist Homes Descends Shares Innermost
PROPERTIES Grows
