SPECIFICATION Spec
CONSTANT Tier = "@TIER@"
CONSTANT Ops = @OPS@
INVARIANTS Commutes MulInverse AddInverse Guarded SumUnits Square CmpSwap CmpNeg Trichotomy
CHECK_DEADLOCK FALSE
