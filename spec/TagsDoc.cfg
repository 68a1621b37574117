CONSTANTS Tokens = {"one", "minus", "comma", "big", "over", "required", "Required", "re", "quired", "under", "x", "space", "eacute", "digit", "doti"}
 MaxTokens = 4
 Gen = FALSE
SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
