SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS InPlace Psd Symmetric Gathered Mises Emit
PROPERTY Laws
CHECK_DEADLOCK FALSE
