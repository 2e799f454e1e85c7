SPECIFICATION SmallSpec
CONSTANTS MaxLinear = 2
 Merges = TRUE
 TwoDays = TRUE
 Emit = FALSE
INVARIANT Fits
CHECK_DEADLOCK FALSE
