SPECIFICATION Spec
POSTCONDITION AllSame
CHECK_DEADLOCK FALSE
