CONSTANT MaxTokens = 4
SPECIFICATION Spec
INVARIANTS CodesDoNotCount Additive Bounds DashSeparates HyphenJoins
CHECK_DEADLOCK FALSE
