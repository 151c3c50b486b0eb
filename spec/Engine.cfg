SPECIFICATION Spec
CONSTANTS
 Slots = 2
 Size = 3
INVARIANTS ReadOnce OneReporter CounterSafe Outcome Undisturbed
PROPERTIES Refines Returns
