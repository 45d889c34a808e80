SPECIFICATION Spec
CONSTANT Top = 8
INVARIANTS FormRight AddRight MulRight OneRight ShiftRight CmpRight BitsRight SizeRight DivRight
CHECK_DEADLOCK FALSE
