CONSTANT MaxLines = 3
SPECIFICATION Spec
INVARIANTS SameText Structure Valid KeepsPlace Titles Stable
CHECK_DEADLOCK FALSE
