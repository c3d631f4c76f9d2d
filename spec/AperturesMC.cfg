SPECIFICATION Spec
CONSTANTS
  MaxAp = 3
  MaxArea = 2
  MaxPh = 2
INVARIANTS OnePlace Share WedgesOK AreasOK AcrossOK
PROPERTY Untouched
CHECK_DEADLOCK FALSE
