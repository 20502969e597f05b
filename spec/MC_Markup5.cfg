CONSTANT MaxTokens = 5
SPECIFICATION Spec
INVARIANTS NothingLost OneParaPerLine Canonical NoLeak Redundant
CHECK_DEADLOCK FALSE
