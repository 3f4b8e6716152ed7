SPECIFICATION Spec
CONSTANT Tier = "@TIER@"
INVARIANTS Group PowLaws Equality
CHECK_DEADLOCK FALSE
