SPECIFICATION Spec
CONSTANTS MaxRuns = 3  MaxThreads = 3  Sites = 2  Marks = 2  P = 3
          Rule = "crossed"  Expect = "runs"  Every = "mark"
INVARIANTS Once Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
