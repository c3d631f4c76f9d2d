CONSTANT Big = FALSE
INIT Init
NEXT Next
INVARIANTS PlacedOK ShellOK TurnOK BayOK PartOK CountOK EndsOK AimOK TilesOK TileLawOK SkyOK ModuleOK
CHECK_DEADLOCK FALSE
