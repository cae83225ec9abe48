CONSTANTS Flavours = {"pk", "pkh", "sh", "sep", "ms", "wpkh", "shwpkh", "wsh", "shwsh", "wms", "tr", "trs"}
  NEdits = 1
INIT Init
NEXT Next
INVARIANTS FirstStands SecondStands Emit
CHECK_DEADLOCK FALSE
