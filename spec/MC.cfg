SPECIFICATION Spec
CONSTANTS Names = {"lists"} More = 0 Mode = "yes"

CHECK_DEADLOCK FALSE
