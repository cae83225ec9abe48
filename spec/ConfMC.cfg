CONSTANTS
  Firsts <- Few
  Lens = {0, 1, 2, 8, 9, 10, 32, 33, 34}
  Fills = {0, 37}
INIT Init
NEXT Next
INVARIANT OneClass
INVARIANT PlainIsExplicit
INVARIANT Travels
INVARIANT OddIsLost
INVARIANT Emit
CHECK_DEADLOCK FALSE
