SPECIFICATION Spec
INVARIANT ConformsSolution
INVARIANT ConformsUtil
INVARIANT SpecSafe
CHECK_DEADLOCK FALSE
