from _absint import opaque_activation


def linear(x):
    return x


def get(identifier):
    if identifier is None or identifier == "linear":
        return linear
    if callable(identifier):
        return identifier
    return opaque_activation(identifier)


def serialize(activation):
    if activation is None:
        return None
    return activation.__name__


def deserialize(config):
    return get(config)


relu = opaque_activation("relu")
tanh = opaque_activation("tanh")
sigmoid = opaque_activation("sigmoid")
gelu = opaque_activation("gelu")
softmax = opaque_activation("softmax")
