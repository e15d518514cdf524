INIT Init
NEXT Next
INVARIANTS Say OrderFree
CHECK_DEADLOCK FALSE
CONSTANTS Mode = "@MODE@" Items0 = @FIRST@ MaxItems = @ITEMS@ Seed = @SEED@ Count = @COUNT@
