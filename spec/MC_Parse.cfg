SPECIFICATION Spec
CONSTANT Tier = "@TIER@"
INVARIANTS Meaning Physical NoJuxtaposition Balanced
CHECK_DEADLOCK FALSE
