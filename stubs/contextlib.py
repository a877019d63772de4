class _GeneratorContextManager:
    def __init__(self, func, args, kwds):
        self.func, self.args, self.kwds = func, args, kwds
        self.gen = None

    def __call__(self, f):
        cm = self

        def inner(*args, **kwds):
            with _GeneratorContextManager(cm.func, cm.args, cm.kwds):
                return f(*args, **kwds)
        return inner

    def __enter__(self):
        self.gen = self.func(*self.args, **self.kwds)
        return next(self.gen)

    def __exit__(self, typ, value, traceback):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(value)
        except StopIteration:
            return True
        except BaseException as exc:
            if exc is value:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(func):
    def helper(*args, **kwds):
        return _GeneratorContextManager(func, args, kwds)
    helper.__name__ = func.__name__
    return helper


class AbstractContextManager:
    def __enter__(self):
        return self


class ContextDecorator:
    def __call__(self, func):
        cm = self

        def inner(*args, **kwds):
            with cm:
                return func(*args, **kwds)
        return inner


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *excinfo):
        return None


class suppress:
    def __init__(self, *exceptions):
        self.exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, exctype, excinst, exctb):
        return exctype is not None and issubclass(exctype, self.exceptions)


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc_info):
        self.thing.close()


class ExitStack:
    def __init__(self):
        self._callbacks = []

    def __enter__(self):
        return self

    def callback(self, f, *args, **kwds):
        self._callbacks.append((False, f, args, kwds))
        return f

    def push(self, exit):
        self._callbacks.append((True, exit, (), {}))
        return exit

    def enter_context(self, cm):
        result = cm.__enter__()
        self._callbacks.append((True, cm.__exit__, (), {}))
        return result

    def pop_all(self):
        new = ExitStack()
        new._callbacks = self._callbacks
        self._callbacks = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, typ, value, tb):
        pending = value
        suppressed = False
        while self._callbacks:
            is_exit, f, args, kwds = self._callbacks.pop()
            try:
                if is_exit:
                    if f(None if pending is None else type(pending), pending, None):
                        pending = None
                        suppressed = True
                else:
                    f(*args, **kwds)
            except BaseException as exc:
                pending = exc
        if pending is not None and pending is not value:
            raise pending
        return suppressed and pending is None
