SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TurnLaw VecTurns Components ScalarsLaw MirrorLaw RebaseLaw BackLaw SumLaw SumTells
