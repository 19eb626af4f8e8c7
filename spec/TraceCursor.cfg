SPECIFICATION TSpec
INVARIANTS InOrder
VIEW TView
CHECK_DEADLOCK TRUE
