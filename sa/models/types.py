import _sa
FunctionType = LambdaType = _sa.function
MethodType = _sa.method
CoroutineType = _sa.coroutine
GeneratorType = _sa.generator
AsyncGeneratorType = _sa.async_generator
ModuleType = _sa.module
BuiltinFunctionType = _sa.builtin_function_or_method
NoneType = _sa.NoneType


class SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __eq__(self, other):
        return vars(self) == vars(other) if isinstance(other, SimpleNamespace) else NotImplemented


class MappingProxyType(dict):
    pass


def coroutine(f):
    return f
