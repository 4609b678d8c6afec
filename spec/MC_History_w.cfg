SPECIFICATION Spec
CONSTANTS
 Kinds = {"tri", "surface", "tets", "quads", "grid", "sphere", "sten", "array"}
 MaxLen = 3
 Faults = {}
 Surveys = FALSE
 Emit = FALSE
INVARIANTS Unaltered Faithful
CHECK_DEADLOCK FALSE
