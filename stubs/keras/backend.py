from _absint import image_data_format
from keras._core import standardize_data_format


def backend():
    return "jax"


def floatx():
    return "float32"


def is_tensor(x):
    from keras import ops
    return ops.is_tensor(x)


def standardize_dtype(dtype):
    from keras import ops
    return "float32" if dtype is None else ops._standardize(dtype)
