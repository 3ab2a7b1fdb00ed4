SPECIFICATION GSpec
VIEW View
INVARIANT OnePerIndex
INVARIANT EnoughIsT
CHECK_DEADLOCK FALSE
