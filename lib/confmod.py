"""Classes and functions named by configurations (C22)."""


class Base:
    def __init__(self, *a, **kw):
        self.a, self.kw = a, kw


class Sub(Base):
    pass


class Other:
    def __init__(self, n: int = 0):
        self.n = n


def func(x: int = 1, *, y: str = "d"):
    return ("func", x, y)


NOT = 5
