SPECIFICATION Spec
CONSTANTS
  MaxAp = 3
  MaxArea = 3
  MaxPh = 3
INVARIANTS OnePlace Share WedgesOK AreasOK AcrossOK
PROPERTY Untouched
CHECK_DEADLOCK FALSE
