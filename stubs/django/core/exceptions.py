__vp_open__ = 'django.core.exceptions'


class FieldDoesNotExist(Exception):
    pass


class AppRegistryNotReady(Exception):
    pass


class ObjectDoesNotExist(Exception):
    silent_variable_failure = True


class MultipleObjectsReturned(Exception):
    pass


class ImproperlyConfigured(Exception):
    pass


class FieldError(Exception):
    pass


class ValidationError(Exception):
    pass


class MiddlewareNotUsed(Exception):
    pass


class SuspiciousOperation(Exception):
    pass
