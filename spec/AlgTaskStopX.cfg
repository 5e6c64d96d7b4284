SPECIFICATION AlgSpec
CONSTANTS
  Prop = "all"
  NConn = 0
  NApp = 3
  MaxIn = 1
  Pkt = 2
  MsgLen = 2
  Reply = 1
  Windows = {1000}
  NSend = 0
  NClose = 0
  NShut = 0
  NTask = 3
  NStop = 1
  Ends = {}
  Fails = {}
  Fin = 1
  Variant = "none"
INVARIANTS Implements Sound
CHECK_DEADLOCK FALSE
CONSTRAINT Stop1
