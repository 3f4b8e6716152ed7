SPECIFICATION Spec
CONSTANTS Tier = "@TIER@"
          Depth = @DEPTH@
          Focus = "@FOCUS@"
INVARIANTS Positive LabelsKnown Kind SimpOK PrefOK
PROPERTIES Stable AllOrNothing RefusedKeeps OnlyBy
CHECK_DEADLOCK FALSE
