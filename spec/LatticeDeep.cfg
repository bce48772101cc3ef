SPECIFICATION LatticeSpec
CONSTANT Size = 3
INVARIANTS KeptUp Lagrange Cauchy Law Flat
CHECK_DEADLOCK FALSE
