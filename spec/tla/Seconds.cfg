CONSTANTS Year1 = 2000 Month1 = 1 Day1 = 1 Count1 = 1051544 Last = 2000 Clock = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK DayCount Cycle Logged
PROPERTIES Seconds
CHECK_DEADLOCK FALSE
