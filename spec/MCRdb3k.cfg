SPECIFICATION Spec
CONSTANTS Keys = {"a", "b", "c"}
 Values = {"1", "2"}
 MaxOps = 4
INVARIANTS Stable AnyOrder Again Spelt Sound
CHECK_DEADLOCK FALSE
