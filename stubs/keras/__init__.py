"""Interpreted model of the parts of Keras 3 that a layer library can see."""
from _absint import KerasTensor
from keras import ops
from keras import backend, config, utils, activations, initializers, regularizers, constraints, saving
from keras._core import DTypePolicy, FloatDTypePolicy, InputSpec, Layer, Variable
from keras import dtype_policies, mixed_precision
from keras import layers
