SPECIFICATION Spec
INVARIANTS Standard Listed Family OwnLabels Equation PositiveFactor
CHECK_DEADLOCK FALSE
