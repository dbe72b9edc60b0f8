INIT Init
NEXT Next
CONSTANTS
  Vs = {"1", "2", "3"}
  Machines = {"a"}
  PSizes = {3, 6}
  BSize = 10
  Damage = {"ok", "broken"}
  EnvOps = {"publish", "ppatch", "lpatch", "evict"}
  CmdOps = {"install", "patch", "sync", "add", "badadd"}
  MaxSteps = 3
  Published = {}
  Props = {"C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C17", "C18", "C19"}
  Report = FALSE
INVARIANTS AllHold Sound
VIEW Explored
CHECK_DEADLOCK FALSE
