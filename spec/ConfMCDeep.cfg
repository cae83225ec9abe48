CONSTANTS
  Firsts <- AllBytes
  Lens <- AllLens
  Fills = {0, 37}
INIT Init
NEXT Next
INVARIANT OneClass
INVARIANT PlainIsExplicit
INVARIANT Travels
INVARIANT OddIsLost
INVARIANT Emit
CHECK_DEADLOCK FALSE
