SPECIFICATION Spec
INVARIANT FlagsAreASet
INVARIANT PlainHasNone
INVARIANT CheckIsMeet
INVARIANT BrandsAreASet
CHECK_DEADLOCK FALSE
