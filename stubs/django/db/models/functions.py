from django.db.models.expressions import Func
__vp_open__ = 'django.db.models.functions'


class Coalesce(Func):
    pass


class Cast(Func):
    pass
