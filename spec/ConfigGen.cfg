SPECIFICATION Spec
CONSTANTS
  States = {"A", "B"}
  Events = {"x", "y"}
  Spare = "z"
INVARIANTS Inv Emit
PROPERTY Keeps
VIEW view
CHECK_DEADLOCK FALSE
