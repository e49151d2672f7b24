CONSTANTS Year1 = 1 Month1 = 1 Day1 = 1 Count1 = 321425 Last = 4000 Clock = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK DayCount Cycle Logged
PROPERTIES Seconds
CHECK_DEADLOCK FALSE
