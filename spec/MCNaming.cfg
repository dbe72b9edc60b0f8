INIT Init
NEXT Next
CONSTANTS
  Pieces = {"a", "-", ".", "1", ".tar", ".patch", ".zst", "--"}
  N = 3
INVARIANTS BuildRoundTrip PatchRoundTrip
CHECK_DEADLOCK FALSE
