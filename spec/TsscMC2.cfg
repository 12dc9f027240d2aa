CONSTANTS Ids <- Ids2
 Times <- Times2
 Flags <- Flags2
 Values <- Values2
 MaxPackets = 1
 MaxPerPacket = 1
 AllForms = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Agree ModesValid
CHECK_DEADLOCK FALSE
