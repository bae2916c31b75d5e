SPECIFICATION Spec
CONSTANTS Kinds = {"log", "hinge", "mse", "huber", "softmax"} XV = 1 WV = 2 S = 100000
INVARIANTS C16_Finite C16_Subgradient
CHECK_DEADLOCK FALSE
