CONSTANTS
  NScripts = 3
  Depth = 4
  Width = 4
  Versions = {256, 192, 102, 195, 100}
INIT Init
NEXT Next
INVARIANTS Sound Balanced Emit
CHECK_DEADLOCK FALSE
