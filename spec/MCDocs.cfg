INIT DocsInit
NEXT DocsNext
CONSTANT Fam <- FamSeq
INVARIANT DocInvariant
CHECK_DEADLOCK FALSE
