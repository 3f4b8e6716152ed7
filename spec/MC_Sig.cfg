SPECIFICATION Spec
CONSTANTS Tier = "@TIER@"
          Depth = @DEPTH@
INVARIANTS Closed UnitsFixed Laws
PROPERTIES Isolated LikeOp
CHECK_DEADLOCK FALSE
