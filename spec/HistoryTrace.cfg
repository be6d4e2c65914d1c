INIT TInit
NEXT TNext
VIEW TView
CONSTANT Slack = 3000000
CHECK_DEADLOCK FALSE
