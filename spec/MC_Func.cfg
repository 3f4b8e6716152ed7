SPECIFICATION Spec
CONSTANTS
  Tier = "@TIER@"
INVARIANTS Covariant Telescopes DiffSum SelfCross WholeTurns WrongDims
CHECK_DEADLOCK FALSE
