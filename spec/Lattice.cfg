SPECIFICATION LatticeSpec
CONSTANT Size = 2
INVARIANTS KeptUp Lagrange Cauchy Law Flat
CHECK_DEADLOCK FALSE
