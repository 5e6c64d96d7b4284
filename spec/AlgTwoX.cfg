SPECIFICATION AlgSpec
CONSTANTS
  Prop = "all"
  NConn = 2
  NApp = 2
  MaxIn = 1
  Pkt = 2
  MsgLen = 2
  Reply = 1
  Windows = {1, 1000}
  NSend = 1
  NClose = 1
  NShut = 0
  NTask = 0
  NStop = 0
  Ends = {}
  Fails = {}
  Fin = 0
  Variant = "none"
INVARIANTS Implements Sound
CHECK_DEADLOCK FALSE
CONSTRAINT Stop1
