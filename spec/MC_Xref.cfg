CONSTANT MaxScenes = 2
SPECIFICATION Spec
INVARIANTS Appearances ElementTags Nothing Targets Linked
CHECK_DEADLOCK FALSE
