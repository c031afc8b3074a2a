------------------------------- MODULE GenRun -------------------------------
EXTENDS Jobs
VARIABLES j, W, hist, cs, turn, left, rejs
G == INSTANCE Gen WITH Jobs <- JobSet
Spec == G!Spec
Emit == G!Emit
=============================================================================
