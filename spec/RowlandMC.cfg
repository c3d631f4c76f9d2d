SPECIFICATION Spec
CONSTANTS
  MaxW = 12
  MaxD = 4
  MaxK = 14
INVARIANTS LineOK ArcOK TorusOK FacingOK
CHECK_DEADLOCK FALSE
