INIT Init
NEXT Next
INVARIANTS Sane Say
CHECK_DEADLOCK FALSE
CONSTANTS Family = "@FAMILY@"
