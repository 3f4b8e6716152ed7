SPECIFICATION Spec
CONSTANT Tier = "@TIER@"
INVARIANTS Factor Positive RoundTrip ViaSI SimpIsBase CompatIsEquivalence
CHECK_DEADLOCK FALSE
