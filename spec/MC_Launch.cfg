SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS AtMostOnce ThatDocument Possible NotMissing
CHECK_DEADLOCK FALSE
