CONSTANTS Year1 = 1582 Month1 = 10 Day1 = 15 Count1 = 899160 Last = 2600 Clock = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK DayCount Cycle Logged
PROPERTIES Seconds
CHECK_DEADLOCK FALSE
