CONSTANTS MaxBlocks = 5
          MaxOutline = 5
SPECIFICATION Spec
INVARIANTS AllText Headed Valid Scenes TitleComments Fails
CHECK_DEADLOCK FALSE
