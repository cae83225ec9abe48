CONSTANTS Programs <- ProgramsDeep
  Switches = 3
  Shared = "nothing"
INIT Init
NEXT Next
INVARIANTS EachAlone OneLibrary Emit
CHECK_DEADLOCK FALSE
