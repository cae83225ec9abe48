CONSTANTS
  NScripts = 2
  Depth = 2
  Width = 3
  Versions = {256, 192, 195}
INIT Init
NEXT Next
INVARIANTS Sound Balanced Emit
CHECK_DEADLOCK FALSE
