SPECIFICATION Spec
CONSTANTS
    Registers = 3
    Most = 3
VIEW View
INVARIANTS CachesRight TellsTruth Equality
PROPERTIES Laws
CHECK_DEADLOCK FALSE
