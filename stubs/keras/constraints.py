def get(identifier):
    return identifier


def serialize(obj):
    return obj


def deserialize(config):
    return config
