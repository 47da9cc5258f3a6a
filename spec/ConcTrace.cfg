SPECIFICATION TSpec
CONSTRAINT Report
INVARIANT Inv
CHECK_DEADLOCK FALSE
