SPECIFICATION Spec
CONSTANTS
  States = {"A", "B", "C"}
  Events = {"x", "y", "w"}
  Spare = "z"
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
