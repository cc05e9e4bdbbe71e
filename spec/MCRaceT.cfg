SPECIFICATION Spec
CONSTANTS
 Tasks = 2
 Objs = 2
 Locs = 2
 Len_ = 5
INVARIANTS ClocksExact RaceIsRace SameResult
CHECK_DEADLOCK FALSE
