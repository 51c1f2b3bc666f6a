SPECIFICATION Spec
CONSTANTS Order = TRUE  Local = TRUE  MaxT = 2  Wide = FALSE
CONSTRAINT Bound
INVARIANTS UnitSpins EnergyKept Reversible ReversibleNF DriveOnSubsystem LocalChange BondsTwice SpectrumOk
CHECK_DEADLOCK FALSE
