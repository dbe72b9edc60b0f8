INIT Init
NEXT Next
CONSTANTS
  PatchPairs <- TablePairs
  IsBuildName <- TableBuild
  Slice <- TableSlice
INVARIANT Accepted
CHECK_DEADLOCK FALSE
