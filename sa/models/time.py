import _sa


def time():
    return _sa.now()


def monotonic():
    return _sa.now()


perf_counter = monotonic


def time_ns():
    return _sa.now() * 1000000000


monotonic_ns = time_ns


def sleep(d):
    _sa.blocking_sleep(d)


def strftime(*a):
    return _sa.opaque("strftime")


def gmtime(*a):
    return _sa.opaque("gmtime")


localtime = gmtime
