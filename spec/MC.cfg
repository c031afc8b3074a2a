SPECIFICATION Spec
INVARIANTS Agreement Authentication Identity NoEarlyKey OneTime Together Interesting
PROPERTIES SimForever Final OneGuess
CHECK_DEADLOCK FALSE
POSTCONDITION Stats
