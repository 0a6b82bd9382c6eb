SPECIFICATION Spec
CONSTANTS XS = {0, 1, 2}
 YS = {0, 2}
 LENS = {1, 2, 3}
INVARIANTS Same Symmetric Ends ZeroIffEqual
CHECK_DEADLOCK FALSE
