SPECIFICATION Spec
INVARIANTS Holds Live Told Logged Emit
VIEW view
CHECK_DEADLOCK FALSE
