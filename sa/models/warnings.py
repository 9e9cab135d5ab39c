def warn(*a, **kw):
    pass


def simplefilter(*a, **kw):
    pass
