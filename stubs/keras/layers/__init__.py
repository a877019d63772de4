from _absint import (compute_conv_output_shape, compute_conv_transpose_output_shape, compute_pooling_output_shape)
from keras import activations, constraints, initializers, ops, regularizers
from keras._core import InputSpec, Layer, standardize_data_format, standardize_padding, standardize_tuple


class BaseConv(Layer):
    def __init__(self, rank, filters, kernel_size, strides=1, padding="valid", data_format=None, dilation_rate=1,
                 groups=1, activation=None, use_bias=True, kernel_initializer="glorot_uniform",
                 bias_initializer="zeros", kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None,
                 kernel_constraint=None, bias_constraint=None, trainable=True, name=None, **kwargs):
        super().__init__(trainable=trainable, name=name, activity_regularizer=activity_regularizer, **kwargs)
        self.rank = rank
        self.filters = filters
        self.groups = groups or 1
        self.kernel_size = standardize_tuple(kernel_size, rank, "kernel_size")
        self.strides = standardize_tuple(strides, rank, "strides")
        self.dilation_rate = standardize_tuple(dilation_rate, rank, "dilation_rate")
        self.padding = standardize_padding(padding, allow_causal=rank == 1)
        self.data_format = standardize_data_format(data_format)
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        self.kernel_initializer = initializers.get(kernel_initializer)
        self.bias_initializer = initializers.get(bias_initializer)
        self.kernel_regularizer = regularizers.get(kernel_regularizer)
        self.bias_regularizer = regularizers.get(bias_regularizer)
        self.kernel_constraint = constraints.get(kernel_constraint)
        self.bias_constraint = constraints.get(bias_constraint)
        self.input_spec = InputSpec(min_ndim=self.rank + 2)
        if self.filters is not None and self.filters <= 0:
            raise ValueError("Invalid value for argument `filters`. Expected a strictly positive value.")
        if self.filters is not None and self.filters % self.groups != 0:
            raise ValueError("The number of filters must be evenly divisible by the number of groups.")
        _check_strides_dilation(self.strides, self.dilation_rate)

    def build(self, input_shape):
        if self.data_format == "channels_last":
            channel_axis = -1
            input_channel = input_shape[-1]
        else:
            channel_axis = 1
            input_channel = input_shape[1]
        self.input_spec = InputSpec(min_ndim=self.rank + 2, axes={channel_axis: input_channel})
        if input_channel % self.groups != 0:
            raise ValueError("The number of input channels must be evenly divisible by the number of groups.")
        kernel_shape = self.kernel_size + (input_channel // self.groups, self.filters)
        self.compute_output_shape(input_shape)
        self.kernel = self.add_weight(name="kernel", shape=kernel_shape, initializer=self.kernel_initializer,
                                      regularizer=self.kernel_regularizer, constraint=self.kernel_constraint,
                                      trainable=True, dtype=self.dtype)
        if self.use_bias:
            self.bias = self.add_weight(name="bias", shape=(self.filters,), initializer=self.bias_initializer,
                                        regularizer=self.bias_regularizer, constraint=self.bias_constraint,
                                        trainable=True, dtype=self.dtype)
        else:
            self.bias = None
        self.built = True

    def convolution_op(self, inputs, kernel):
        return ops.conv(inputs, kernel, strides=list(self.strides), padding=self.padding,
                        dilation_rate=self.dilation_rate, data_format=self.data_format)

    def call(self, inputs):
        outputs = self.convolution_op(inputs, self.kernel)
        if self.use_bias:
            if self.data_format == "channels_last":
                bias_shape = (1,) * (self.rank + 1) + (self.filters,)
            else:
                bias_shape = (1, self.filters) + (1,) * self.rank
            bias = ops.reshape(self.bias, bias_shape)
            outputs += bias
        if self.activation is not None:
            return self.activation(outputs)
        return outputs

    def compute_output_shape(self, input_shape):
        return compute_conv_output_shape(input_shape, self.filters, self.kernel_size, strides=self.strides,
                                         padding=self.padding, data_format=self.data_format,
                                         dilation_rate=self.dilation_rate)

    def get_config(self):
        config = super().get_config()
        config.update({
            "filters": self.filters, "kernel_size": self.kernel_size, "strides": self.strides,
            "padding": self.padding, "data_format": self.data_format, "dilation_rate": self.dilation_rate,
            "groups": self.groups, "activation": activations.serialize(self.activation), "use_bias": self.use_bias,
            "kernel_initializer": initializers.serialize(self.kernel_initializer),
            "bias_initializer": initializers.serialize(self.bias_initializer),
            "kernel_regularizer": regularizers.serialize(self.kernel_regularizer),
            "bias_regularizer": regularizers.serialize(self.bias_regularizer),
            "activity_regularizer": regularizers.serialize(self.activity_regularizer),
            "kernel_constraint": constraints.serialize(self.kernel_constraint),
            "bias_constraint": constraints.serialize(self.bias_constraint),
        })
        return config


def _check_strides_dilation(strides, dilation):
    if all([type(d) is int and d == 1 for d in dilation]) or all([type(s) is int and s == 1 for s in strides]):
        return
    if max(strides) > 1 and max(dilation) > 1:
        raise ValueError("`strides > 1` not supported in conjunction with `dilation_rate > 1`.")


class Conv1D(BaseConv):
    def __init__(self, filters, kernel_size, strides=1, padding="valid", data_format=None, dilation_rate=1, groups=1,
                 activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros",
                 kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None,
                 bias_constraint=None, **kwargs):
        super().__init__(rank=1, filters=filters, kernel_size=kernel_size, strides=strides, padding=padding,
                         data_format=data_format, dilation_rate=dilation_rate, groups=groups,
                         activation=activation, use_bias=use_bias, kernel_initializer=kernel_initializer,
                         bias_initializer=bias_initializer, kernel_regularizer=kernel_regularizer,
                         bias_regularizer=bias_regularizer, activity_regularizer=activity_regularizer,
                         kernel_constraint=kernel_constraint, bias_constraint=bias_constraint, **kwargs)


class Conv2D(BaseConv):
    def __init__(self, filters, kernel_size, strides=(1, 1), padding="valid", data_format=None, dilation_rate=(1, 1),
                 groups=1,
                 activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros",
                 kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None,
                 bias_constraint=None, **kwargs):
        super().__init__(rank=2, filters=filters, kernel_size=kernel_size, strides=strides, padding=padding,
                         data_format=data_format, dilation_rate=dilation_rate, groups=groups,
                         activation=activation, use_bias=use_bias, kernel_initializer=kernel_initializer,
                         bias_initializer=bias_initializer, kernel_regularizer=kernel_regularizer,
                         bias_regularizer=bias_regularizer, activity_regularizer=activity_regularizer,
                         kernel_constraint=kernel_constraint, bias_constraint=bias_constraint, **kwargs)


class Conv3D(BaseConv):
    def __init__(self, filters, kernel_size, strides=(1, 1, 1), padding="valid", data_format=None,
                 dilation_rate=(1, 1, 1), groups=1,
                 activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros",
                 kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None,
                 bias_constraint=None, **kwargs):
        super().__init__(rank=3, filters=filters, kernel_size=kernel_size, strides=strides, padding=padding,
                         data_format=data_format, dilation_rate=dilation_rate, groups=groups,
                         activation=activation, use_bias=use_bias, kernel_initializer=kernel_initializer,
                         bias_initializer=bias_initializer, kernel_regularizer=kernel_regularizer,
                         bias_regularizer=bias_regularizer, activity_regularizer=activity_regularizer,
                         kernel_constraint=kernel_constraint, bias_constraint=bias_constraint, **kwargs)


Convolution2D, Convolution3D = Conv2D, Conv3D


class BaseConvTranspose(Layer):
    def __init__(self, rank, filters, kernel_size, strides=1, padding="valid", output_padding=None, data_format=None,
                 dilation_rate=1, activation=None, use_bias=True, kernel_initializer="glorot_uniform",
                 bias_initializer="zeros", kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None,
                 kernel_constraint=None, bias_constraint=None, trainable=True, name=None, **kwargs):
        super().__init__(trainable=trainable, name=name, activity_regularizer=activity_regularizer, **kwargs)
        self.rank = rank
        self.filters = filters
        self.kernel_size = standardize_tuple(kernel_size, rank, "kernel_size")
        self.strides = standardize_tuple(strides, rank, "strides")
        self.dilation_rate = standardize_tuple(dilation_rate, rank, "dilation_rate")
        self.padding = standardize_padding(padding)
        self.output_padding = None if output_padding is None else standardize_tuple(output_padding, rank,
                                                                                    "output_padding")
        self.data_format = standardize_data_format(data_format)
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        self.kernel_initializer = initializers.get(kernel_initializer)
        self.bias_initializer = initializers.get(bias_initializer)
        self.kernel_regularizer = regularizers.get(kernel_regularizer)
        self.bias_regularizer = regularizers.get(bias_regularizer)
        self.kernel_constraint = constraints.get(kernel_constraint)
        self.bias_constraint = constraints.get(bias_constraint)
        self.input_spec = InputSpec(min_ndim=self.rank + 2)
        if self.filters is not None and self.filters <= 0:
            raise ValueError("Invalid value for argument `filters`. Expected a strictly positive value.")
        _check_strides_dilation(self.strides, self.dilation_rate)

    def build(self, input_shape):
        if self.data_format == "channels_last":
            channel_axis = -1
            input_channel = input_shape[-1]
        else:
            channel_axis = 1
            input_channel = input_shape[1]
        self.input_spec = InputSpec(min_ndim=self.rank + 2, axes={channel_axis: input_channel})
        kernel_shape = self.kernel_size + (self.filters, input_channel)
        self.kernel = self.add_weight(name="kernel", shape=kernel_shape, initializer=self.kernel_initializer,
                                      regularizer=self.kernel_regularizer, constraint=self.kernel_constraint,
                                      trainable=True, dtype=self.dtype)
        if self.use_bias:
            self.bias = self.add_weight(name="bias", shape=(self.filters,), initializer=self.bias_initializer,
                                        regularizer=self.bias_regularizer, constraint=self.bias_constraint,
                                        trainable=True, dtype=self.dtype)
        else:
            self.bias = None
        self.built = True

    def call(self, inputs):
        outputs = ops.conv_transpose(inputs, self.kernel, strides=list(self.strides), padding=self.padding,
                                     output_padding=self.output_padding, dilation_rate=self.dilation_rate,
                                     data_format=self.data_format)
        if self.use_bias:
            if self.data_format == "channels_last":
                bias_shape = (1,) * (self.rank + 1) + (self.filters,)
            else:
                bias_shape = (1, self.filters) + (1,) * self.rank
            bias = ops.reshape(self.bias, bias_shape)
            outputs += bias
        if self.activation is not None:
            return self.activation(outputs)
        return outputs

    def compute_output_shape(self, input_shape):
        return compute_conv_transpose_output_shape(input_shape, self.kernel_size, self.filters, strides=self.strides,
                                                   padding=self.padding, output_padding=self.output_padding,
                                                   data_format=self.data_format, dilation_rate=self.dilation_rate)

    def get_config(self):
        config = super().get_config()
        config.update({
            "filters": self.filters, "kernel_size": self.kernel_size, "strides": self.strides,
            "padding": self.padding, "data_format": self.data_format, "dilation_rate": self.dilation_rate,
            "activation": activations.serialize(self.activation), "use_bias": self.use_bias,
            "kernel_initializer": initializers.serialize(self.kernel_initializer),
            "bias_initializer": initializers.serialize(self.bias_initializer),
            "kernel_regularizer": regularizers.serialize(self.kernel_regularizer),
            "bias_regularizer": regularizers.serialize(self.bias_regularizer),
            "activity_regularizer": regularizers.serialize(self.activity_regularizer),
            "kernel_constraint": constraints.serialize(self.kernel_constraint),
            "bias_constraint": constraints.serialize(self.bias_constraint),
        })
        return config


class Conv2DTranspose(BaseConvTranspose):
    def __init__(self, filters, kernel_size, strides=(1, 1), padding="valid", data_format=None, dilation_rate=(1, 1),
                 activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros",
                 kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None,
                 bias_constraint=None, **kwargs):
        super().__init__(rank=2, filters=filters, kernel_size=kernel_size, strides=strides, padding=padding,
                         data_format=data_format, dilation_rate=dilation_rate,
                         activation=activation, use_bias=use_bias, kernel_initializer=kernel_initializer,
                         bias_initializer=bias_initializer, kernel_regularizer=kernel_regularizer,
                         bias_regularizer=bias_regularizer, activity_regularizer=activity_regularizer,
                         kernel_constraint=kernel_constraint, bias_constraint=bias_constraint, **kwargs)


class Conv3DTranspose(BaseConvTranspose):
    def __init__(self, filters, kernel_size, strides=(1, 1, 1), padding="valid", data_format=None,
                 dilation_rate=(1, 1, 1),
                 activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros",
                 kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None,
                 bias_constraint=None, **kwargs):
        super().__init__(rank=3, filters=filters, kernel_size=kernel_size, strides=strides, padding=padding,
                         data_format=data_format, dilation_rate=dilation_rate,
                         activation=activation, use_bias=use_bias, kernel_initializer=kernel_initializer,
                         bias_initializer=bias_initializer, kernel_regularizer=kernel_regularizer,
                         bias_regularizer=bias_regularizer, activity_regularizer=activity_regularizer,
                         kernel_constraint=kernel_constraint, bias_constraint=bias_constraint, **kwargs)


class BasePooling(Layer):
    def __init__(self, pool_size, strides, pool_dimensions, pool_mode="max", padding="valid", data_format=None,
                 name=None, **kwargs):
        super().__init__(name=name, **kwargs)
        self.pool_size = standardize_tuple(pool_size, pool_dimensions, "pool_size")
        strides = pool_size if strides is None else strides
        self.strides = standardize_tuple(strides, pool_dimensions, "strides", allow_zero=True)
        self.pool_mode = pool_mode
        self.padding = padding
        self.data_format = standardize_data_format(data_format)
        self.input_spec = InputSpec(ndim=pool_dimensions + 2)

    def call(self, inputs):
        if self.pool_mode == "max":
            return ops.max_pool(inputs, pool_size=self.pool_size, strides=self.strides, padding=self.padding,
                                data_format=self.data_format)
        return ops.average_pool(inputs, pool_size=self.pool_size, strides=self.strides, padding=self.padding,
                                data_format=self.data_format)

    def compute_output_shape(self, input_shape):
        return compute_pooling_output_shape(input_shape, self.pool_size, self.strides, self.padding, self.data_format)

    def get_config(self):
        config = super().get_config()
        config.update({"pool_size": self.pool_size, "padding": self.padding, "strides": self.strides,
                       "data_format": self.data_format})
        return config


class MaxPooling1D(BasePooling):
    def __init__(self, pool_size=2, strides=None, padding="valid", data_format=None, name=None, **kwargs):
        super().__init__(pool_size, strides, pool_dimensions=1, pool_mode="max", padding=padding,
                         data_format=data_format, name=name, **kwargs)


class MaxPooling2D(BasePooling):
    def __init__(self, pool_size=(2, 2), strides=None, padding="valid", data_format=None, name=None, **kwargs):
        super().__init__(pool_size, strides, pool_dimensions=2, pool_mode="max", padding=padding,
                         data_format=data_format, name=name, **kwargs)


class MaxPooling3D(BasePooling):
    def __init__(self, pool_size=(2, 2, 2), strides=None, padding="valid", data_format=None, name=None, **kwargs):
        super().__init__(pool_size, strides, pool_dimensions=3, pool_mode="max", padding=padding,
                         data_format=data_format, name=name, **kwargs)


class AveragePooling1D(BasePooling):
    def __init__(self, pool_size, strides=None, padding="valid", data_format=None, name=None, **kwargs):
        super().__init__(pool_size, strides, pool_dimensions=1, pool_mode="average", padding=padding,
                         data_format=data_format, name=name, **kwargs)


class AveragePooling2D(BasePooling):
    def __init__(self, pool_size, strides=None, padding="valid", data_format=None, name=None, **kwargs):
        super().__init__(pool_size, strides, pool_dimensions=2, pool_mode="average", padding=padding,
                         data_format=data_format, name=name, **kwargs)


class AveragePooling3D(BasePooling):
    def __init__(self, pool_size, strides=None, padding="valid", data_format=None, name=None, **kwargs):
        super().__init__(pool_size, strides, pool_dimensions=3, pool_mode="average", padding=padding,
                         data_format=data_format, name=name, **kwargs)


MaxPool1D, MaxPool2D, MaxPool3D = MaxPooling1D, MaxPooling2D, MaxPooling3D
AvgPool1D, AvgPool2D, AvgPool3D = AveragePooling1D, AveragePooling2D, AveragePooling3D


class BaseGlobalPooling(Layer):
    def __init__(self, pool_dimensions, data_format=None, keepdims=False, **kwargs):
        super().__init__(**kwargs)
        self.data_format = standardize_data_format(data_format)
        self.keepdims = keepdims
        self.input_spec = InputSpec(ndim=pool_dimensions + 2)
        raw_dims = pool_dimensions
        self._pool_dimensions = raw_dims

    def _axes(self):
        first = 1 if self.data_format == "channels_last" else 2
        return list(range(first, first + self._pool_dimensions))

    def compute_output_shape(self, input_shape):
        num_spatial_dims = len(input_shape) - 2
        if self.data_format == "channels_last":
            if self.keepdims:
                return (input_shape[0],) + (1,) * num_spatial_dims + (input_shape[-1],)
            return (input_shape[0],) + (input_shape[-1],)
        if self.keepdims:
            return (input_shape[0], input_shape[1]) + (1,) * num_spatial_dims
        return (input_shape[0], input_shape[1])

    def get_config(self):
        config = super().get_config()
        config.update({"data_format": self.data_format, "keepdims": self.keepdims})
        return config


class _GlobalMax(BaseGlobalPooling):
    def call(self, inputs):
        return ops.max(inputs, axis=self._axes(), keepdims=self.keepdims)


class _GlobalAverage(BaseGlobalPooling):
    def call(self, inputs, mask=None):
        return ops.mean(inputs, axis=self._axes(), keepdims=self.keepdims)


class GlobalMaxPooling1D(_GlobalMax):
    def __init__(self, data_format=None, keepdims=False, **kwargs):
        super().__init__(pool_dimensions=1, data_format=data_format, keepdims=keepdims, **kwargs)


class GlobalMaxPooling2D(_GlobalMax):
    def __init__(self, data_format=None, keepdims=False, **kwargs):
        super().__init__(pool_dimensions=2, data_format=data_format, keepdims=keepdims, **kwargs)


class GlobalMaxPooling3D(_GlobalMax):
    def __init__(self, data_format=None, keepdims=False, **kwargs):
        super().__init__(pool_dimensions=3, data_format=data_format, keepdims=keepdims, **kwargs)


class GlobalAveragePooling1D(_GlobalAverage):
    def __init__(self, data_format=None, keepdims=False, **kwargs):
        super().__init__(pool_dimensions=1, data_format=data_format, keepdims=keepdims, **kwargs)


class GlobalAveragePooling2D(_GlobalAverage):
    def __init__(self, data_format=None, keepdims=False, **kwargs):
        super().__init__(pool_dimensions=2, data_format=data_format, keepdims=keepdims, **kwargs)


class GlobalAveragePooling3D(_GlobalAverage):
    def __init__(self, data_format=None, keepdims=False, **kwargs):
        super().__init__(pool_dimensions=3, data_format=data_format, keepdims=keepdims, **kwargs)


GlobalMaxPool1D, GlobalMaxPool2D, GlobalMaxPool3D = GlobalMaxPooling1D, GlobalMaxPooling2D, GlobalMaxPooling3D
GlobalAvgPool1D, GlobalAvgPool2D, GlobalAvgPool3D = (GlobalAveragePooling1D, GlobalAveragePooling2D,
                                                     GlobalAveragePooling3D)


class Identity(Layer):
    def call(self, inputs):
        return inputs
