SPECIFICATION Spec
INVARIANTS RegisteredAsAsked PublishedWasRegistered Export
CHECK_DEADLOCK FALSE
