SPECIFICATION Spec
CONSTANTS MaxNodes = 3 MaxItems = 3
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
