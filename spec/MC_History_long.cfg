SPECIFICATION Spec
CONSTANTS
 Kinds = {"tri", "surface", "tets", "quads", "grid", "sphere", "sten", "array"}
 MaxLen = 6
 Faults = {}
 Surveys = FALSE
 Emit = TRUE
INVARIANTS Unaltered Faithful
CHECK_DEADLOCK FALSE
