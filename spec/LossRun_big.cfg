SPECIFICATION Spec
CONSTANTS Kinds = {"log", "hinge", "mse", "huber", "softmax"} XV = 2 WV = 3 S = 100000
INVARIANTS C16_Finite C16_Subgradient
CHECK_DEADLOCK FALSE
