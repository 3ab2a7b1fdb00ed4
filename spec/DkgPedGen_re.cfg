SPECIFICATION GSpec
VIEW Coarse
INVARIANT Sound
CONSTANT Roles = {"reshare", "leaving"}
CHECK_DEADLOCK FALSE
