from keras._core import DTypePolicy, FloatDTypePolicy
