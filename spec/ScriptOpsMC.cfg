CONSTANT MaxElems = 3
CONSTANT Wide = 2
INIT Init
NEXT Next
INVARIANT OpsDistinct
INVARIANT ReadsBack
INVARIANT Show
CHECK_DEADLOCK FALSE
