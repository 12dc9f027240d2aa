CONSTANTS Watched <- AllKinds
 AllForms = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS DataGuarantee TsscGuarantee BlockGuarantee CacheGuarantee MsgGuarantee NeverBroken
CHECK_DEADLOCK FALSE
