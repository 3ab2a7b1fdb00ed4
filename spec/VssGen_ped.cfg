SPECIFICATION GSpec
VIEW View
INVARIANT Sound
CONSTANT Kind = "ped"
CHECK_DEADLOCK FALSE
