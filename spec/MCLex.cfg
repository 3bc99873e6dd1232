SPECIFICATION Spec
CONSTANTS Alphabet = "ops"  MaxLen = 4
INVARIANTS Agree Complete Lossless NoEmpty Fused Hint PromptNl Kinds MaxMunch EscSingle
CHECK_DEADLOCK FALSE
