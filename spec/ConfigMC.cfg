SPECIFICATION Spec
INVARIANTS TypeOK LoadedIsFile RefusedIsMalformed NeverAbsentAfterLoad
CHECK_DEADLOCK FALSE
