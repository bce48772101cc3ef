SPECIFICATION Spec
CONSTANTS First = 15020 Last = 88069 Step = 487 Runs = 32
INVARIANTS KeplerOK BarycentreOK VelocityOK PoleOK LocatorOK RotationOK SeasonOK
CHECK_DEADLOCK FALSE
