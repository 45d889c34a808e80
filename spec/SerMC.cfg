SPECIFICATION Spec
CONSTANTS MaxNodes = 3 MaxItems = 2
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
