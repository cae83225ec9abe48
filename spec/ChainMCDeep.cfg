CONSTANTS
  Depth = 7
  Lanes = 3
  Chains = {"bitcoin", "bitcoin/testnet", "elements", "elements/elementsregtest", "elements/liquidv1", "none"}
  Starts = {"elements", "bitcoin"}
INIT Init
NEXT Next
INVARIANTS OwnHistory Table Emit
PROPERTY NonInterference
CHECK_DEADLOCK FALSE
