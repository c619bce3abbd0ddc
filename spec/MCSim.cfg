INIT SimInit
NEXT SimNext
CONSTANT Menu <- NoMenu
CONSTANT Fam <- FamSeq
CONSTANT Focus <- TheFocus
CONSTANT WithAlts <- Alternatives
INVARIANT Invariants
CHECK_DEADLOCK FALSE
