class ABCMeta(type):
    pass


class ABC(metaclass=ABCMeta):
    pass


def abstractmethod(f):
    return f


abstractproperty = property
