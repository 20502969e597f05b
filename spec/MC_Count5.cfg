CONSTANT MaxTokens = 5
SPECIFICATION Spec
INVARIANTS CodesDoNotCount Additive Bounds DashSeparates HyphenJoins
CHECK_DEADLOCK FALSE
