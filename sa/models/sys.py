maxsize = 9223372036854775807
version_info = (3, 12, 3, "final", 0)


class _FI:
    max = 1.7976931348623157e+308
    min = 2.2250738585072014e-308
    epsilon = 2.220446049250313e-16


float_info = _FI()


def exc_info():
    return (None, None, None)
