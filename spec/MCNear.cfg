INIT NearInit
NEXT NearNext
CONSTANT Menu <- NoMenu
CONSTANT Fam <- FamSeq
INVARIANT Invariants
CHECK_DEADLOCK FALSE
