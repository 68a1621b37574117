CONSTANTS Tokens = {"one", "snow", "byte", "minus", "comma", "big", "over", "required", "Required", "re", "quired", "under", "x", "space", "eacute", "digit", "doti"}
 MaxTokens = 4
 Gen = TRUE
SPECIFICATION Spec
INVARIANT Dump
CONSTRAINT OnlyMake
CHECK_DEADLOCK FALSE
