SPECIFICATION Spec
INVARIANTS ErrorLeavesNone SuccessWorks RunsWhatItBuilt LinksOnce NothingLeft
PROPERTIES OnlyTheLinkerBuilds Ends
CHECK_DEADLOCK FALSE
