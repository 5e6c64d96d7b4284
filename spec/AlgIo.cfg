SPECIFICATION AlgSpec
CONSTANTS
  Prop = "all"
  NConn = 1
  NApp = 2
  MaxIn = 1
  Pkt = 2
  MsgLen = 2
  Reply = 1
  Windows = {0, 1, 1000}
  NSend = 2
  NClose = 0
  NShut = 0
  NTask = 0
  NStop = 0
  Ends = {}
  Fails = {"spur"}
  Fin = 1
  Variant = "none"
INVARIANTS Implements Sound
CHECK_DEADLOCK FALSE
CONSTRAINT Stop1
