SPECIFICATION Spec
CONSTANTS
 Slots = 2
 Size = 1
INVARIANTS ReadOnce OneReporter CounterSafe Outcome Undisturbed
PROPERTIES Refines Returns
