SPECIFICATION Spec
CONSTANTS
 Tasks = 2
 Objs = 2
 Locs = 2
 Len_ = 4
INVARIANTS ClocksExact RaceIsRace SameResult
CHECK_DEADLOCK FALSE
