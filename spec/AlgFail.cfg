SPECIFICATION AlgSpec
CONSTANTS
  Prop = "all"
  NConn = 2
  NApp = 1
  MaxIn = 1
  Pkt = 2
  MsgLen = 2
  Reply = 0
  Windows = {1000}
  NSend = 1
  NClose = 0
  NShut = 0
  NTask = 0
  NStop = 0
  Ends = {"rst"}
  Fails = {"nb", "add"}
  Fin = 1
  Variant = "none"
INVARIANTS Implements Sound
CHECK_DEADLOCK FALSE
CONSTRAINT Stop1
