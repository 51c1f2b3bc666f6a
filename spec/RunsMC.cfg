SPECIFICATION Spec
CONSTANTS MaxRuns = 2  MaxThreads = 2  Records = 2  MaxInv = 3  MaxCrash = 2  Atomic = TRUE  Early = FALSE
INVARIANTS CfgWhole OffsetCounts NoGaps FinishedKept FinishedComplete TouchOnlyOwn SaveWhenComplete
PROPERTY Ends
CHECK_DEADLOCK FALSE
