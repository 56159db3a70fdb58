SPECIFICATION Spec
CONSTANTS
 Trips = 3
 Times = {0, 1, 2}
 Lons = {0, 1, 3}
 Limit <- MCLimit
 Samples <- MCSamples
INVARIANTS NextRight PatternsRight NearRight SampleUseful
CHECK_DEADLOCK FALSE
