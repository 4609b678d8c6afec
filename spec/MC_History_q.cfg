SPECIFICATION Spec
CONSTANTS
 Kinds = {"tri", "surface", "tets", "quads", "grid", "sphere", "sten", "array"}
 MaxLen = 2
 Faults = {}
 Surveys = FALSE
 Emit = TRUE
INVARIANTS Unaltered Faithful
CHECK_DEADLOCK FALSE
POSTCONDITION Dump
