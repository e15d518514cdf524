INIT Init
NEXT Next
INVARIANTS Say
CHECK_DEADLOCK FALSE
CONSTANTS Mode = "@MODE@" Base = @BASE@ Seed = @SEED@ Count = @COUNT@
