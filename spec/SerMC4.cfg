SPECIFICATION Spec
CONSTANTS MaxNodes = 4 MaxItems = 2
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
