CONSTANT On <- IsOn
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
