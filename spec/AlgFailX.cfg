SPECIFICATION AlgSpec
CONSTANTS
  Prop = "all"
  NConn = 3
  NApp = 1
  MaxIn = 0
  Pkt = 2
  MsgLen = 2
  Reply = 0
  Windows = {1000}
  NSend = 1
  NClose = 1
  NShut = 0
  NTask = 0
  NStop = 0
  Ends = {"rst"}
  Fails = {"nb", "add"}
  Fin = 1
  Variant = "none"
INVARIANTS Implements Sound
CHECK_DEADLOCK FALSE
CONSTRAINT Stop1
