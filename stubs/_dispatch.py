class singledispatch:
    """functools.singledispatch"""

    def __init__(self, func):
        self._default = func
        self._table = []

    def register(self, cls, func=None):
        if func is None:
            if isinstance(cls, type):
                return lambda f: self.register(cls, f)
            func = cls
            cls = list(func.__annotations__.values())[0]
        self._table.append((cls, func))
        return func

    def dispatch_for(self, arg):
        best = None
        for cls, func in self._table:
            if isinstance(arg, cls) and (best is None or issubclass(cls, best[0])):
                best = (cls, func)
        return self._default if best is None else best[1]

    def __call__(self, *args, **kwargs):
        return self.dispatch_for(args[0])(*args, **kwargs)
