CONSTANTS N = 3 K = 1
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Updates SlewLaw Bystanders Idempotent
ACTION_CONSTRAINT Log
CHECK_DEADLOCK FALSE
