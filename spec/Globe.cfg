SPECIFICATION GlobeSpec
CONSTANTS LatStep = 5  LonStep = 15
INVARIANTS Formula Ground Mirrors
CHECK_DEADLOCK FALSE
