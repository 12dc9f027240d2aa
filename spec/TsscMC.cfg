CONSTANTS Ids <- Ids1
 Times <- Times1
 Flags <- Flags1
 Values <- Values1
 MaxPackets = 2
 MaxPerPacket = 2
 AllForms = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Agree ModesValid
CHECK_DEADLOCK FALSE
