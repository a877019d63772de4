def register_keras_serializable(package="Custom", name=None):
    def decorator(cls):
        return cls
    return decorator


def get_registered_name(obj):
    return obj.__name__


def serialize_keras_object(obj):
    return obj


def deserialize_keras_object(obj, custom_objects=None):
    return obj
