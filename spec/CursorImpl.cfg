SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Names <- QuickNames
INVARIANTS NoTwice InOrder Conserved
PROPERTY Refines
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
