INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS Focus = "" Seed = 0 From = 1 Upto = 0 Deep = FALSE
