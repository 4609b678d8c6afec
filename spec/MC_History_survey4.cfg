SPECIFICATION Spec
CONSTANTS
 Kinds = {"tri", "surface", "tets", "quads", "grid", "sphere", "sten", "array"}
 MaxLen = 4
 Faults = {}
 Surveys = TRUE
 Emit = TRUE
INVARIANTS Unaltered Faithful
CHECK_DEADLOCK FALSE
