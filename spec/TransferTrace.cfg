SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT LC <- Lc
