def bisect_left(a, x, lo=0, hi=None, key=None):
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


def bisect_right(a, x, lo=0, hi=None, key=None):
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo


bisect = bisect_right


def insort_right(a, x, lo=0, hi=None, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


insort = insort_right


def insort_left(a, x, lo=0, hi=None, key=None):
    a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)
