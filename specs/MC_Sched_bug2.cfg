CONSTANTS MaxTasks = 3 MaxNow = 3 Periods = {0, 1, 2} Defer = TRUE StepBack = FALSE EndMarks = FALSE
SPECIFICATION ISpec
INVARIANTS VisitFits EndFits SameTasks Swept
CHECK_DEADLOCK FALSE
