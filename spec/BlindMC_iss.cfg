CONSTANTS
  MaxIn = 1
  MaxOut = 2
  IssKinds = {"none", "A", "T", "AT", "R"}
  OutAssets = {"in1", "iss", "tok", "other"}
  OutKinds = {"plain", "key", "keyz", "fee"}
  Stricts = {TRUE, FALSE}
INIT Init
NEXT Next
INVARIANT StrictMeansAll
INVARIANT StrictIsStronger
INVARIANT OnlyAsked
INVARIANT ClosedBalance
INVARIANT Refusal
INVARIANT Ranges
INVARIANT Emit
CHECK_DEADLOCK FALSE
