CONSTANTS N = 2 K = 2
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Updates SlewLaw Bystanders Idempotent
ACTION_CONSTRAINT Log
CHECK_DEADLOCK FALSE
