SPECIFICATION Spec
CONSTANTS Keys = {"a", "b"}
 Values = {"1", "2"}
 MaxOps = 4
INVARIANTS Stable AnyOrder Again Spelt Sound
CHECK_DEADLOCK FALSE
