SPECIFICATION Spec
CONSTANTS
  Tier = "@TIER@"
INVARIANTS Atomic Worth Undone Parens Distinct Rejected
CHECK_DEADLOCK FALSE
