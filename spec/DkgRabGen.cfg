SPECIFICATION GSpec
VIEW Coarse
INVARIANT Sane
CONSTANT Roles = {TRUE, FALSE}
CHECK_DEADLOCK FALSE
