CONSTANTS Focus = "@FOCUS@" Seed = @SEED@ Size = @SIZE@ Mode = "@MODE@"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
