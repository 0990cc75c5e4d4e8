SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxOrder = 3
INVARIANTS IsBall NoWrap Lex Rows Partition Emit
CHECK_DEADLOCK FALSE
