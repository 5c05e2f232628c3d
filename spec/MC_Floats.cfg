SPECIFICATION Spec
INVARIANTS RoundTrip Nearest Mono BytesOK Digits
CHECK_DEADLOCK FALSE
