import __vp__
__vp_open__ = 'django.db.utils'
DEFAULT_DB_ALIAS = 'default'


class Error(Exception):
    pass


class InterfaceError(Error):
    pass


class DatabaseError(Error):
    pass


class DataError(DatabaseError):
    pass


class OperationalError(DatabaseError):
    pass


class IntegrityError(DatabaseError):
    pass


class InternalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class NotSupportedError(DatabaseError):
    pass


class ConnectionDoesNotExist(Exception):
    pass


class ConnectionHandler(object):
    __vp_open__ = 'django.db.utils'

    def __init__(self):
        self.vp_conns = []

    def __getitem__(self, alias):
        if alias is None:
            raise ConnectionDoesNotExist("The connection None doesn't exist")
        for a, c in self.vp_conns:
            if a == alias:
                return c
        from django.db.backends.base import make_connection
        c = make_connection(alias)
        self.vp_conns.append((alias, c))
        return c

    def __iter__(self):
        return iter(['default'])

    def all(self):
        return [self[a] for a in self]

    def close_all(self):
        __vp__.note('connections.close_all')


class ConnectionRouter(object):
    __vp_open__ = 'django.db.utils'

    def db_for_read(self, model, **hints):
        inst = hints.get('instance')
        return DEFAULT_DB_ALIAS if inst is None else (inst._state.db or DEFAULT_DB_ALIAS)

    def db_for_write(self, model, **hints):
        inst = hints.get('instance')
        return DEFAULT_DB_ALIAS if inst is None else (inst._state.db or DEFAULT_DB_ALIAS)

    def allow_relation(self, a, b, **hints):
        return True

    def allow_migrate(self, db, app_label, **hints):
        return True
