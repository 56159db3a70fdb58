SPECIFICATION Spec
CONSTANTS
 Trips = 4
 Times = {0, 1, 2, 3}
 Lons = {0, 1, 2, 3}
 Limit <- MCLimit
 Samples <- MCSamples
INVARIANTS NextRight PatternsRight NearRight SampleUseful
CHECK_DEADLOCK FALSE
