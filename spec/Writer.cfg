SPECIFICATION Spec
CONSTANTS
  MaxEls = 6
  MaxDepth = 7
  MaxLen <- LenIn
  Walks <- WalksIn
  Seed <- SeedIn
  Mode <- ModeIn
INVARIANTS Balanced OneStart Owned Emit
CHECK_DEADLOCK FALSE
