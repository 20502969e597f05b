CONSTANT MaxTokens = 4
SPECIFICATION Spec
INVARIANTS NothingLost OneParaPerLine Canonical NoLeak Redundant
CHECK_DEADLOCK FALSE
