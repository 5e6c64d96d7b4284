SPECIFICATION AlgSpec
CONSTANTS
  Prop = "all"
  NConn = 1
  NApp = 2
  MaxIn = 0
  Pkt = 2
  MsgLen = 2
  Reply = 0
  Windows = {1, 1000}
  NSend = 2
  NClose = 0
  NShut = 1
  NTask = 0
  NStop = 0
  Ends = {"half"}
  Fails = {}
  Fin = 0
  Variant = "none"
INVARIANTS Implements Sound
CHECK_DEADLOCK FALSE
CONSTRAINT Stop1
