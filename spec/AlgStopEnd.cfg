SPECIFICATION AlgSpec
CONSTANTS
  Prop = "all"
  NConn = 1
  NApp = 2
  MaxIn = 1
  Pkt = 2
  MsgLen = 2
  Reply = 1
  Windows = {1000}
  NSend = 0
  NClose = 1
  NShut = 0
  NTask = 0
  NStop = 1
  Ends = {"half"}
  Fails = {}
  Fin = 1
  Variant = "none"
INVARIANTS Implements Sound
CHECK_DEADLOCK FALSE
CONSTRAINT Stop1
