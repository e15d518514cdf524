INIT Init
NEXT Next
INVARIANT Consistent
CHECK_DEADLOCK FALSE
CONSTANTS Focus = "none" Seed = @SEED@ Size = @SIZE@ Mode = "@MODE@" Depth = @DEPTH@ First = @FIRST@
