SPECIFICATION Spec
CONSTANTS Skip = 0
 Map = "other"
INVARIANTS OtherBand LinesDontCount OwnBand
CHECK_DEADLOCK FALSE
