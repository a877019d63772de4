from _absint import image_data_format
from keras._core import dtype_policy, set_dtype_policy


def floatx():
    return "float32"


def backend():
    return "jax"
