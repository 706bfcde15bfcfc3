SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Accepted Reversible Determines NothingIfEqual
CHECK_DEADLOCK FALSE
