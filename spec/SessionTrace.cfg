INIT TInit
NEXT TNext
CONSTANTS Prop <- JudgedProp
CHECK_DEADLOCK FALSE
