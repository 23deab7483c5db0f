SPECIFICATION Spec
CONSTANT MaxLen = 4
PROPERTIES GlobalAlone Advanced Seeded
CHECK_DEADLOCK FALSE
