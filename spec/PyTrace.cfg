SPECIFICATION PSpec
CONSTRAINT Report
INVARIANT Inv
CHECK_DEADLOCK FALSE
