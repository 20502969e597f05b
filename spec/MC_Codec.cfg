SPECIFICATION Spec
INVARIANTS ReadsBack Layout ForeignKept Idempotent
CHECK_DEADLOCK FALSE
