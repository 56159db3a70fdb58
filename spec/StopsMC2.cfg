CONSTANTS N = 3
INIT Init
NEXT Next
INVARIANTS SweepSound SweepComplete OneParentReport StationsNotUnused OwnStationIsFine
CHECK_DEADLOCK FALSE
