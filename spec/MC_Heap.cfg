SPECIFICATION Spec
CONSTANTS Tier = "@TIER@"
          Depth = @DEPTH@
          Focus = "@FOCUS@"
INVARIANTS Wf Agree
PROPERTIES Apart Labels Sharing RefusedKeeps Physical LikeOp
CHECK_DEADLOCK FALSE
