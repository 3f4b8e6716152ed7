SPECIFICATION Spec
CONSTANT Tier = "@TIER@"
INVARIANTS ReadBack Named Injective
CHECK_DEADLOCK FALSE
