SPECIFICATION SSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 Slots = 64
 Size = 1
