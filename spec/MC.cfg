INIT MCInit
NEXT MCNext
CONSTANT Menu <- NoMenu
CONSTANT Fam <- FamSeq
INVARIANT Invariants
CHECK_DEADLOCK FALSE
