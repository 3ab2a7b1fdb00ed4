SPECIFICATION GSpec
CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
