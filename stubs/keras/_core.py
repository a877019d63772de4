from _absint import (autocast_dtype, autocast_scope, enter_autocast, enter_policy, global_policy, external, parameters, image_data_format, is_symbolic, make_variable_tensor, note, raw_attrs, raw_set, size_eq,
                     symbolic_output)
from keras import ops

_counters = {}


def standardize_data_format(data_format):
    if data_format is None:
        return image_data_format()
    data_format = str(data_format).lower()
    if data_format not in {"channels_first", "channels_last"}:
        raise ValueError("The `data_format` argument must be one of {'channels_first', 'channels_last'}.")
    return data_format


def standardize_tuple(value, n, name, allow_zero=False):
    if isinstance(value, int):
        value_tuple = (value,) * n
    else:
        try:
            value_tuple = tuple(value)
        except TypeError:
            raise ValueError(f"The `{name}` argument must be a tuple of {n} integers.")
        if len(value_tuple) != n:
            raise ValueError(f"The `{name}` argument must be a tuple of {n} integers.")
        for single_value in value_tuple:
            try:
                int(single_value)
            except (ValueError, TypeError):
                raise ValueError(f"The `{name}` argument must be a tuple of {n} integers.")
    for v in value_tuple:
        if (v < 0) if allow_zero else (v <= 0):
            raise ValueError(f"The `{name}` argument must be a tuple of {n} positive integers.")
    return value_tuple


def standardize_padding(value, allow_causal=False):
    if isinstance(value, (list, tuple)):
        return value
    padding = value.lower()
    if padding not in ("valid", "same"):
        raise ValueError("The `padding` argument must be a list/tuple or one of {'valid', 'same'}.")
    return padding


class DTypePolicy:
    def __init__(self, name):
        if not isinstance(name, str):
            raise TypeError(f"'name' must be a string, such as 'mixed_float16'. Received: name={name}")
        self.name = name
        if name in ("mixed_float16", "mixed_bfloat16"):
            self.compute_dtype, self.variable_dtype = name[6:], "float32"
        else:
            self.compute_dtype = self.variable_dtype = ops._standardize(name)

    def get_config(self):
        return {"name": self.name}

    @classmethod
    def from_config(cls, config):
        return cls(**config)


class FloatDTypePolicy(DTypePolicy):
    pass


def dtype_policy():
    return DTypePolicy(global_policy())


def set_dtype_policy(policy):
    note("set_dtype_policy")
    enter_policy(policy.name if isinstance(policy, DTypePolicy) else DTypePolicy(policy).name)


def get_policy(dtype):
    if dtype is None:
        return dtype_policy()
    if isinstance(dtype, DTypePolicy):
        return dtype
    return DTypePolicy(dtype if isinstance(dtype, str) else ops._standardize(dtype))


class Variable:
    def __init__(self, name, shape, trainable=True, dtype="float32"):
        self.name = name
        self.trainable = trainable
        self._dtype = "float32" if dtype is None else ops._standardize(dtype)
        self._vshape = tuple(shape)
        self._version = 0
        raw_set(self, "__tensor__", make_variable_tensor(name, shape, 0, self._dtype))

    @property
    def dtype(self):
        return autocast_dtype(self._dtype)

    @property
    def shape(self):
        return self._vshape

    @property
    def ndim(self):
        return len(self._vshape)

    @property
    def path(self):
        return self.name

    @property
    def value(self):
        return ops.convert_to_tensor(self)

    def numpy(self):
        return ops.convert_to_numpy(self.value)

    def assign(self, value):
        note("assign", variable=self.name)
        self._version = self._version + 1
        raw_set(self, "__tensor__", make_variable_tensor(self.name, self._vshape, self._version, self._dtype))

    def assign_add(self, value):
        self.assign(value)

    def assign_sub(self, value):
        self.assign(value)


class InputSpec:
    def __init__(self, dtype=None, shape=None, ndim=None, max_ndim=None, min_ndim=None, axes=None,
                 allow_last_axis_squeeze=False, name=None):
        self.dtype = dtype
        self.shape = shape
        self.ndim = len(shape) if shape is not None else ndim
        self.max_ndim = max_ndim
        self.min_ndim = min_ndim
        self.axes = {int(k): v for k, v in (axes or {}).items()}
        self.name = name


def assert_input_compatibility(spec, x, layer_name):
    shape = tuple(x.shape)
    ndim = len(shape)
    if spec.ndim is not None and ndim != spec.ndim:
        raise ValueError(f'Input 0 of layer "{layer_name}" is incompatible with the layer: '
                         f'expected ndim={spec.ndim}, found ndim={ndim}.')
    if spec.max_ndim is not None and ndim > spec.max_ndim:
        raise ValueError(f'Input 0 of layer "{layer_name}" is incompatible with the layer (max_ndim).')
    if spec.min_ndim is not None and ndim < spec.min_ndim:
        raise ValueError(f'Input 0 of layer "{layer_name}" is incompatible with the layer (min_ndim).')
    if spec.axes:
        for axis, value in spec.axes.items():
            if value is not None:
                dim = shape[axis]
                if dim is not None and not size_eq(dim, value):
                    raise ValueError(f'Input 0 of layer "{layer_name}" is incompatible with the layer: '
                                     f'expected axis {axis} of input shape to have value {value}, '
                                     f'but received {dim}.')
    if spec.shape is not None:
        for spec_dim, dim in zip(spec.shape, shape):
            if spec_dim is not None and dim is not None and not size_eq(dim, spec_dim):
                raise ValueError(f'Input 0 of layer "{layer_name}" is incompatible with the layer (shape).')


def _track(layer, value):
    if isinstance(value, (Variable, Layer)):
        # keras's tracker has a store for trainable and one for other variables, chosen by what the variable is now
        tracked = raw_attrs(layer)["_tracked"]
        store = "layers" if isinstance(value, Layer) else "trainable" if value.trainable else "other"
        for s, t in raw_attrs(layer)["_stored"]:
            if t is value and s == store:
                return value
        if raw_attrs(layer)["_locked"]:
            raise ValueError("You cannot add new elements of state (variables or sub-layers) to a layer that is "
                             "already built.")
        raw_attrs(layer)["_stored"].append((store, value))
        for t in tracked:
            if t is value:
                return value
        tracked.append(value)
        return value
    if type(value) is list:
        return [_track(layer, v) for v in value]
    if type(value) is tuple:
        return tuple([_track(layer, v) for v in value])
    if type(value) is dict:
        return {k: _track(layer, v) for k, v in value.items()}
    return value


_training = []  # the training argument of the calls under way


class Layer:
    def __new__(cls, *args, **kwargs):
        obj = object.__new__(cls)
        raw_set(obj, "_init_args", (args, dict(kwargs)))
        raw_set(obj, "_tracked", [])
        raw_set(obj, "_stored", [])
        raw_set(obj, "_locked", False)
        raw_set(obj, "_super_called", False)
        original_build_method = obj.build

        def build_wrapper(*args, **kwargs):
            original_build_method(*args, **kwargs)
            raw_set(obj, "_build_shapes_dict", {"input_shape": args[0] if args else kwargs["input_shape"]})
            obj.built = True
            raw_set(obj, "_locked", True)

        raw_set(obj, "build", build_wrapper)
        return obj

    def __init__(self, *, activity_regularizer=None, trainable=True, dtype=None, autocast=True, name=None, **kwargs):
        raw_set(self, "_super_called", True)
        if name is None:
            base = type(self).__name__
            n = _counters.get(base, 0)
            _counters[base] = n + 1
            name = base if n == 0 else f"{base}_{n}"
        elif not isinstance(name, str):
            raise ValueError("Argument `name` must be a string.")
        self.name = name
        self.activity_regularizer = activity_regularizer
        kwargs.pop("input_dim", None)
        kwargs.pop("input_shape", None)
        if kwargs:
            raise ValueError(f"Unrecognized keyword arguments passed to {type(self).__name__}: {kwargs}")
        self.built = False
        self.dtype_policy = get_policy(dtype)
        self.autocast = autocast
        raw_set(self, "_input_spec", None)
        raw_set(self, "_trainable", trainable)
        self.supports_masking = False

    def __setattr__(self, name, value):
        raw_set(self, name, _track(self, value))

    def _check_super_called(self):
        if not raw_attrs(self)["_super_called"]:
            raise RuntimeError(f"In layer '{type(self).__name__}', you forgot to call `super().__init__()`.")

    @property
    def input_spec(self):
        return self._input_spec

    @input_spec.setter
    def input_spec(self, value):
        raw_set(self, "_input_spec", value)

    @property
    def trainable(self):
        return self._trainable

    @trainable.setter
    def trainable(self, value):
        value = bool(value)
        raw_set(self, "_trainable", value)
        for t in raw_attrs(self)["_tracked"]:
            t.trainable = value

    @property
    def dtype(self):
        return self.variable_dtype

    @property
    def input_dtype(self):
        return self.compute_dtype

    @property
    def compute_dtype(self):
        return self.dtype_policy.compute_dtype

    @property
    def variable_dtype(self):
        return self.dtype_policy.variable_dtype

    @property
    def variables(self):
        out = []
        for t in raw_attrs(self)["_tracked"]:
            if isinstance(t, Variable):
                out.append(t)
            else:
                out = out + t.variables
        return out

    @property
    def weights(self):
        return self.variables

    @property
    def trainable_variables(self):
        if not self.trainable:
            return []
        return [v for v in self.variables if v.trainable]

    @property
    def trainable_weights(self):
        return self.trainable_variables

    @property
    def non_trainable_variables(self):
        if not self.trainable:
            return self.variables
        return [v for v in self.variables if not v.trainable]

    def count_params(self):
        return sum([ops.size(v) for v in self.variables])

    def get_weights(self):
        return [v.numpy() for v in self.variables]

    def set_weights(self, weights):
        for v, w in zip(self.variables, weights):
            v.assign(w)

    def add_weight(self, shape=None, initializer=None, dtype=None, trainable=True, regularizer=None, constraint=None,
                   name=None):
        self._check_super_called()
        external("add_weight")
        shape = tuple(() if shape is None else shape)
        for s in shape:
            if s is None:
                raise ValueError("Shapes used to initialize variables must be fully-defined (no `None` dimensions).")
        variable = Variable(f"{self.name}/{name}", shape, trainable, self.variable_dtype if dtype is None else dtype)
        note("add_weight", layer=self.name, name=name, shape=shape, trainable=trainable, initializer=initializer,
             regularizer=regularizer, constraint=constraint)
        _track(self, variable)
        return variable

    def add_loss(self, loss):
        note("add_loss", layer=self.name)

    def build(self, input_shape):
        self._check_super_called()
        self.built = True

    def _maybe_build(self, shape):
        if not self.built:
            note("auto_build", layer=self.name)
            self.build(shape)
            self.built = True

    def __call__(self, inputs, *args, **kwargs):
        self._check_super_called()
        if not ops.is_tensor(inputs):
            inputs = ops.convert_to_tensor(inputs, self.compute_dtype)
        elif self.autocast:
            inputs = ops._autocast(inputs, self.compute_dtype)
        if self.input_spec:
            assert_input_compatibility(self.input_spec, inputs, self.name)
        self._maybe_build(tuple(inputs.shape))
        training = kwargs.pop("training", None)
        if training is None and _training:
            training = _training[-1]
        if training is not None and "training" in parameters(self.call):
            kwargs["training"] = training
        _training.append(training)
        scope = autocast_scope()
        if scope is not None:
            enter_autocast(self.compute_dtype if self.autocast else None)
        elif self.compute_dtype != self.variable_dtype:
            enter_autocast(self.compute_dtype)
        try:
            outputs = self._run_call(inputs, args, kwargs)
            if self.activity_regularizer is not None:
                note("activity", layer=self.name, regularizer=self.activity_regularizer, output=outputs)
            return outputs
        finally:
            enter_autocast(scope)
            _training.pop()

    def _run_call(self, inputs, args, kwargs):
        if is_symbolic(inputs):
            if type(self).compute_output_shape is not Layer.compute_output_shape:
                return symbolic_output(self.compute_output_shape(tuple(inputs.shape)))
        return self.call(inputs, *args, **kwargs)

    def call(self, inputs):
        raise NotImplementedError(f"Layer {type(self).__name__} does not have a `call()` method implemented.")

    def compute_output_shape(self, input_shape):
        raise NotImplementedError(f"Layer {type(self).__name__} should implement "
                                  "`def compute_output_shape(self, input_shape)`.")

    def compute_mask(self, inputs, previous_mask):
        return previous_mask

    def get_build_config(self):
        return dict(self._build_shapes_dict)

    def build_from_config(self, config):
        if config:
            self.build(config["input_shape"])

    def get_config(self):
        self._check_super_called()
        config = {"name": self.name, "trainable": self.trainable, "dtype": self.dtype_policy.name}
        if type(self).get_config is Layer.get_config:
            # nothing overridden: Keras falls back to the recorded constructor arguments
            args, kwargs = raw_attrs(self)["_init_args"]
            for v in list(args) + list(kwargs.values()):
                if not (v is None or isinstance(v, (str, int, float, bool))):
                    raise NotImplementedError(f"Object {type(self).__name__} was created by passing non-serializable "
                                              f"argument values in `__init__()`")
            if args:
                note("auto_config_positional", layer=self.name)
            config.update(kwargs)
        return config

    @classmethod
    def from_config(cls, config):
        try:
            return cls(**config)
        except Exception as e:
            raise TypeError(f"Error when deserializing class '{cls.__name__}' using config={config}: {e}")
