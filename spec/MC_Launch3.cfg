SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS AtMostOnce ThatDocument Possible NotMissing
CHECK_DEADLOCK FALSE
