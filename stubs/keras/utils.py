from keras.saving import register_keras_serializable, serialize_keras_object, deserialize_keras_object
