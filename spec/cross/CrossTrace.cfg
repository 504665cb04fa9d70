SPECIFICATION TSpec
VIEW TView
CONSTRAINT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
