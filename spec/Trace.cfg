INIT Init
NEXT Next
CONSTANTS
  PatchPairs <- TablePairs
  IsBuildName <- TableBuild
  Slice <- TableSlice
INVARIANT Accepted
VIEW Seen
CHECK_DEADLOCK FALSE
