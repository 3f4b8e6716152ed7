SPECIFICATION Spec
CONSTANT Tier = "@TIER@"
INVARIANTS Covariant NoRule SameUnits NoLength
CHECK_DEADLOCK FALSE
