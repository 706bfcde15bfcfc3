SPECIFICATION Spec
CONSTANTS Len1 = 2
          Len2 = 1
INVARIANTS GlobalsMatchFrame Restored CalleeStartsFromBase DefaultsMatchBlocks NoUnallowedRecursion ParamsBound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
