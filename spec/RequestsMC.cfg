SPECIFICATION Spec
INVARIANTS Addressed NotTooLarge OnlyExpressible BoundedTries
PROPERTIES Returns
CHECK_DEADLOCK FALSE
