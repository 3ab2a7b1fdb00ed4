INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
