SPECIFICATION Spec
INVARIANTS Holds Live Emit
VIEW view
CHECK_DEADLOCK FALSE
