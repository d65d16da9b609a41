__vp_open__ = 'django.db.models.deletion'


class ProtectedError(Exception):
    pass


def CASCADE(collector, field, sub_objs, using):
    pass


def PROTECT(collector, field, sub_objs, using):
    pass


def SET(value):
    def set_on_delete(collector, field, sub_objs, using):
        pass
    return set_on_delete


def SET_NULL(collector, field, sub_objs, using):
    pass


def SET_DEFAULT(collector, field, sub_objs, using):
    pass


def DO_NOTHING(collector, field, sub_objs, using):
    pass
