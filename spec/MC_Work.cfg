CONSTANTS MaxBlocks = 4
          MaxOutline = 4
SPECIFICATION Spec
INVARIANTS AllText Headed Valid Scenes TitleComments Fails
CHECK_DEADLOCK FALSE
