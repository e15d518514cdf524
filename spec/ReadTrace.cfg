INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Focus = "@FOCUS@" Seed = @SEED@ Size = @SIZE@
