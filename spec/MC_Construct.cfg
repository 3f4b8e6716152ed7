SPECIFICATION Spec
CONSTANTS
  Tier = "@TIER@"
INVARIANTS Designation Flattened Product Product2 Undone OneShape Invalid Keeps SigmaScales
CHECK_DEADLOCK FALSE
