SPECIFICATION Spec
CONSTANTS Skip = 1
 Map = "own"
INVARIANTS OtherBand LinesDontCount OwnBand
CHECK_DEADLOCK FALSE
