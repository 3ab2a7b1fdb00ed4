SPECIFICATION GSpec
VIEW Coarse
INVARIANT Sound
CONSTANT Roles = {"fresh"}
CHECK_DEADLOCK FALSE
