CONSTANTS Tokens = {"one", "minus", "comma", "over", "required", "re", "quired", "under", "x", "space", "doti"}
 MaxTokens = 5
 Gen = FALSE
SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
