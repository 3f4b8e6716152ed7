SPECIFICATION Spec
CONSTANT Tier = "@TIER@"
INVARIANTS Positive Sized Swapped SubIsAdd Scales DivIsMul SquareIsPow Covariant SumIsAdd MeanIsSum
CHECK_DEADLOCK FALSE
