SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS InPlace Psd Symmetric Gathered Mises Emit
PROPERTY Laws
CHECK_DEADLOCK FALSE
