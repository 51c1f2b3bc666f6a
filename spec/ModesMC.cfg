SPECIFICATION Spec
CONSTANTS MaxModes = 3  Scratch = "own"  Advance = "each"
INVARIANTS SameDisk SameConfig NothingElse DefaultOnlyAlone Numbers
CHECK_DEADLOCK FALSE
