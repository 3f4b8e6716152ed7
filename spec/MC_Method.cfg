SPECIFICATION Spec
CONSTANT Tier = "@TIER@"
INVARIANTS Covariant Stepwise Between StdVar Permutes Involution Limits LimitsRefused
CHECK_DEADLOCK FALSE
