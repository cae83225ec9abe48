CONSTANTS Programs <- ProgramsQuick
  Switches = 2
  Shared = "nothing"
INIT Init
NEXT Next
INVARIANTS EachAlone OneLibrary Emit
CHECK_DEADLOCK FALSE
