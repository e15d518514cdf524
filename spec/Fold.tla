------------------------------- MODULE Fold -------------------------------
LOCAL INSTANCE SequencesExt
\* folds with concrete intermediate values (TLC evaluates this natively)
FoldS(op(_, _), acc, s) == FoldLeft(op, acc, s)
=============================================================================
