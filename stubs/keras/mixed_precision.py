from keras._core import DTypePolicy, FloatDTypePolicy, dtype_policy, set_dtype_policy

Policy = FloatDTypePolicy
global_policy = dtype_policy
set_global_policy = set_dtype_policy
