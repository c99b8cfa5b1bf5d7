"""Wraps functions in place: every reference to them, whoever holds it, sees the wrapper."""
import types

TABLE = []


def hook(module, name, around):
    """From now on the function calls around(original, args, kwargs)."""
    f = getattr(module, name, None)
    if f is None:
        return False
    if not isinstance(f, types.FunctionType) or f.__closure__:
        def wrapper(*a, **k):
            return around(f, a, k)
        wrapper.__name__ = wrapper.__qualname__ = name
        setattr(module, name, wrapper)
        return True
    orig = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__)
    orig.__kwdefaults__ = f.__kwdefaults__
    ns = {}
    exec(f'def stub(*a, **k):\n    from sim.hook import TABLE\n    around, orig = TABLE[{len(TABLE)}]\n    return around(orig, a, k)\n', ns)
    TABLE.append((around, orig))
    f.__defaults__ = f.__kwdefaults__ = None
    f.__code__ = ns['stub'].__code__
    return True
