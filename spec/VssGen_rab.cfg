SPECIFICATION GSpec
VIEW View
INVARIANT Sound
CONSTANT Kind = "rab"
CHECK_DEADLOCK FALSE
