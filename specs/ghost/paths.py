"""Ghost models of pathlib.Path, importlib and json.load: assumed contracts of these libraries (paths as strings under uninterpreted
functions for parent, join, absolute)."""


class Path:
    def __init__(self, s):
        self.s = s

    @property
    def parent(self):
        return Path(pparent(self.s))

    def __truediv__(self, o):
        return Path(pjoin(self.s, o))

    def is_absolute(self):
        return isabs(self.s)

    def absolute(self):
        return Path(pabs(self.s))

    def as_posix(self):
        return self.s

    def __str__(self):
        return self.s


class Package:
    def __init__(self, name):
        self.__file__ = pkgfile(name)


def find_spec(name):
    return installed(name)


def load(f):
    raise NotImplementedError


def join(a, b):
    return pjoin2(a, b)


def dirname(a):
    return pdirname(a)
