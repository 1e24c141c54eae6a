SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Kinds <- Real
