SPECIFICATION Spec
CONSTANTS Skip = 0
 Map = "own"
INVARIANTS OtherBand LinesDontCount OwnBand
CHECK_DEADLOCK FALSE
