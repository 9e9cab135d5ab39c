import _sa
inf = float("inf")
nan = float("nan")
pi = 3.141592653589793
e = 2.718281828459045
ldexp = _sa.ldexp
floor = _sa.floor
ceil = _sa.ceil


def pow(a, b):
    return _sa.overflowing_pow(a, b)


def exp2(b):
    return _sa.overflowing_pow(2.0, b)


def isinf(x):
    return x == inf or x == -inf


def isnan(x):
    return x != x


def isfinite(x):
    return not isinf(x)


def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def trunc(x):
    return int(x)


def fabs(x):
    return abs(x)


def _host(name):
    def f(*a):
        return _sa.hostmath(name, *a)
    return f


log = _host("log")
log2 = _host("log2")
log10 = _host("log10")
log1p = _host("log1p")
sqrt = _host("sqrt")
exp = _host("exp")
expm1 = _host("expm1")
fmod = _host("fmod")
hypot = _host("hypot")
gcd = _host("gcd")
isqrt = _host("isqrt")
comb = _host("comb")
factorial = _host("factorial")
dist = _host("dist")
sin = _host("sin")
cos = _host("cos")


def copysign(a, b):
    return abs(a) if b >= 0 else -abs(a)


def fsum(it):
    return sum(it)


def prod(it, start=1):
    for x in it:
        start = start * x
    return start
