SPECIFICATION Spec
INVARIANTS CopyLaw SplitLaw FindLaw RangeLaw AndLaw CountLaw
CHECK_DEADLOCK FALSE
