CONSTANTS Tokens = {"one", "zero", "plus", "max", "snow", "byte", "quote", "dot", "minus", "comma", "big", "over", "required", "Required", "re", "quired", "under", "x", "space", "eacute", "digit", "doti"}
 MaxTokens = 3
 Gen = TRUE
SPECIFICATION Spec
INVARIANT Dump
CONSTRAINT OnlyMake
CHECK_DEADLOCK FALSE
