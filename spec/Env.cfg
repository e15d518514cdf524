INIT Init
NEXT Next
INVARIANTS Say Sane
CHECK_DEADLOCK FALSE
CONSTANTS Mode = "@MODE@" First = @FIRST@ MaxLen = @MAXLEN@ Seed = @SEED@ Count = @COUNT@
