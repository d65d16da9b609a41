import __vp__
from django.db.utils import (
    DEFAULT_DB_ALIAS, ConnectionDoesNotExist, DataError, DatabaseError, Error, IntegrityError, InterfaceError,
    InternalError, NotSupportedError, OperationalError, ProgrammingError, ConnectionHandler, ConnectionRouter,
)
__vp_open__ = 'django.db'

connections = ConnectionHandler()
router = ConnectionRouter()


class DefaultConnectionProxy(object):
    def __getattr__(self, item):
        return getattr(connections[DEFAULT_DB_ALIAS], item)

    def __setattr__(self, name, value):
        return setattr(connections[DEFAULT_DB_ALIAS], name, value)

    def __eq__(self, other):
        return connections[DEFAULT_DB_ALIAS] == other

    def __hash__(self):
        return 1


connection = DefaultConnectionProxy()


def close_old_connections(**kwargs):
    __vp__.note('close_old_connections')


def reset_queries(**kwargs):
    __vp__.note('reset_queries')
