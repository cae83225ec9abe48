CONSTANTS
  MaxIn = 2
  MaxOut = 2
  IssKinds = {"none"}
  OutAssets = {"in1", "in2", "other"}
  OutKinds = {"plain", "key", "keyz", "fee"}
  Stricts = {TRUE, FALSE}
INIT Init
NEXT Next
INVARIANT StrictMeansAll
INVARIANT StrictIsStronger
INVARIANT OnlyAsked
INVARIANT ClosedBalance
INVARIANT Refusal
INVARIANT Ranges
INVARIANT Emit
CHECK_DEADLOCK FALSE
