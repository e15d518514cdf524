SPECIFICATION Spec
INVARIANTS NoFault AllOrNothing NothingAfterRefusal OnlyApplyChanges Honest Strict
CHECK_DEADLOCK FALSE
CONSTANTS MaxTables = @TABLES@ MaxPlan = @PLAN@
