SPECIFICATION Spec
INVARIANT SameLanguage
CHECK_DEADLOCK FALSE
