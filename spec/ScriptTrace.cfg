SPECIFICATION WalkSpec
POSTCONDITION WalkDone
CHECK_DEADLOCK FALSE
CONSTANT Verdict <- ScriptVerdict
CONSTANT Lanes = 64
