SPECIFICATION Spec
CONSTANTS
  MaxW = 30
  MaxD = 7
  MaxK = 32
INVARIANTS LineOK ArcOK TorusOK FacingOK
CHECK_DEADLOCK FALSE
