SPECIFICATION Spec
CONSTANTS MaxPoints = 5  MaxThreads = 4  Join = TRUE  Last = TRUE  One = TRUE
INVARIANTS HasWorker OldKept Once Delivered
PROPERTY Ends
CHECK_DEADLOCK FALSE
