INIT SimDocsInit
NEXT SimDocsNext
CONSTANT Fam <- FamSeq
INVARIANT SimDocInvariant
CHECK_DEADLOCK FALSE
