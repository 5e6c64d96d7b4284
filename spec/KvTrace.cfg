SPECIFICATION Spec
CONSTRAINT Rec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
