import builtins


class Exception(builtins.Exception):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class LogicError(Exception):
    pass


class LengthError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class RangeError(RuntimeError):
    pass
