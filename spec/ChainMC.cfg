CONSTANTS
  Depth = 3
  Lanes = 2
  Chains = {"bitcoin", "elements", "elements/liquidv1", "none"}
  Starts = {"elements", "bitcoin"}
INIT Init
NEXT Next
INVARIANTS OwnHistory Table Emit
PROPERTY NonInterference
CHECK_DEADLOCK FALSE
