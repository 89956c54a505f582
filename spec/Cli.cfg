CONSTANT Cases <- NoCases
CONSTANT Invocations <- FileInvocations
SPECIFICATION CliSpec
VIEW View
CHECK_DEADLOCK FALSE
