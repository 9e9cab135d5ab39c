import _sa


def random():
    return _sa.random01()


def uniform(a, b):
    return a + (b - a) * _sa.random01()


def randint(a, b):
    return _sa.unknown_num("randint", a, False, b, False, True)


def randrange(*a):
    return _sa.unknown_num("randrange", 0, False, None, False, True)


def choice(seq):
    import sa
    return seq[sa.choose(len(seq))]


def expovariate(l=1.0):
    return _sa.unknown_num("exp", 0, False, None, False, False)


def gauss(mu=0.0, sigma=1.0):
    return _sa.unknown_num("gauss", None, False, None, False, False)


normalvariate = gauss


def shuffle(x):
    pass


def seed(*a):
    pass


class Random:
    def __init__(self, seed=None):
        pass

    def random(self):
        return _sa.random01()

    def uniform(self, a, b):
        return a + (b - a) * _sa.random01()


SystemRandom = Random
