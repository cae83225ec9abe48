CONSTANT N = 60
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
