SPECIFICATION Spec
INVARIANT Compositional
INVARIANT CoreKept
INVARIANT StrictIsFree
PROPERTY OnlyGrows
PROPERTY Final
CHECK_DEADLOCK FALSE
