SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANT Accepted Reversible Determines NothingIfEqual
CHECK_DEADLOCK FALSE
