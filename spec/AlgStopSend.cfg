SPECIFICATION AlgSpec
CONSTANTS
  Prop = "all"
  NConn = 1
  NApp = 2
  MaxIn = 0
  Pkt = 2
  MsgLen = 2
  Reply = 1
  Windows = {1, 1000}
  NSend = 1
  NClose = 0
  NShut = 0
  NTask = 0
  NStop = 1
  Ends = {}
  Fails = {}
  Fin = 1
  Variant = "none"
INVARIANTS Implements Sound
CHECK_DEADLOCK FALSE
CONSTRAINT Stop1
