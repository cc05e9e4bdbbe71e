SPECIFICATION Spec
CONSTANTS
 Tasks = 3
 Objs = 1
 Locs = 1
 Len_ = 4
INVARIANTS ClocksExact RaceIsRace SameResult
CHECK_DEADLOCK FALSE
