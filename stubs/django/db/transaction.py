import __vp__
from django.db.utils import DEFAULT_DB_ALIAS
__vp_open__ = 'django.db.transaction'
__vp_absent__ = ('commit_unless_managed', 'commit_manually', 'commit_on_success', 'autocommit')


class TransactionManagementError(Exception):
    pass


class Atomic(object):
    def __init__(self, using, savepoint):
        self.using = using
        self.savepoint = savepoint

    def __enter__(self):
        __vp__.note('atomic.enter', self.using)

    def __exit__(self, t, v, tb):
        if t is None:
            __vp__.note('atomic.exit', self.using, True)
        else:
            __vp__.note('atomic.exit', self.using, False)
        return False

    def __call__(self, func):
        from functools import wraps
        me = self

        @wraps(func)
        def inner(*args, **kwds):
            with me:
                return func(*args, **kwds)
        return inner


def atomic(using=None, savepoint=True):
    if callable(using):
        return Atomic(DEFAULT_DB_ALIAS, savepoint)(using)
    return Atomic(using or DEFAULT_DB_ALIAS, savepoint)


def _alias(using):
    return using or DEFAULT_DB_ALIAS


def commit(using=None):
    __vp__.note('tx.commit', _alias(using))


def rollback(using=None):
    __vp__.note('tx.rollback', _alias(using))


def set_autocommit(autocommit, using=None):
    __vp__.note('tx.autocommit', _alias(using), autocommit)


def get_autocommit(using=None):
    return __vp__.atom('get_autocommit')


def get_connection(using=None):
    from django.db import connections
    return connections[_alias(using)]


def on_commit(func, using=None):
    __vp__.note('tx.on_commit', _alias(using), func)


def savepoint(using=None):
    __vp__.note('tx.savepoint', _alias(using))
    return __vp__.fresh('sid')


def savepoint_commit(sid, using=None):
    __vp__.note('tx.savepoint_commit', _alias(using))


def savepoint_rollback(sid, using=None):
    __vp__.note('tx.savepoint_rollback', _alias(using))
