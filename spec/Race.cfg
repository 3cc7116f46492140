SPECIFICATION Spec
INVARIANTS AtMostOnce SpentIffServed SomebodyServed ThievesGetNothing Export
CHECK_DEADLOCK FALSE
