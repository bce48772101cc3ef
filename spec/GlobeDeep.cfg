SPECIFICATION GlobeSpec
CONSTANTS LatStep = 2  LonStep = 6
INVARIANTS Formula Ground Mirrors
CHECK_DEADLOCK FALSE
