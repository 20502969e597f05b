SPECIFICATION Spec
CONSTANTS EveryWay = TRUE
          MaxScenes = 2
INVARIANTS InOrder Filtered Numbered Totals Counted Divided2 Paired
PROPERTY Monotone
CHECK_DEADLOCK FALSE
