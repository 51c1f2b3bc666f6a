SPECIFICATION Spec
CONSTANTS N = 8  MaxE = 4  Noise = 1  Keep = "right"  Stop = "end"
INVARIANTS Narrow Brackets Found
PROPERTY Ends
CHECK_DEADLOCK FALSE
