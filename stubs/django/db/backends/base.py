import __vp__

ENGINES = {'sqlite': 'django.db.backends.sqlite3', 'mysql': 'django.db.backends.mysql',
           'postgresql': 'django.db.backends.postgresql'}


TYPES = {
    'AutoField': 'integer', 'BigAutoField': 'bigint', 'BigIntegerField': 'bigint', 'BinaryField': 'blob',
    'BooleanField': 'bool', 'CharField': 'varchar', 'DateField': 'date', 'DateTimeField': 'datetime',
    'DecimalField': 'decimal', 'DurationField': 'bigint', 'FileField': 'varchar', 'FilePathField': 'varchar',
    'FloatField': 'real', 'IntegerField': 'integer', 'GenericIPAddressField': 'char(39)', 'NullBooleanField': 'bool',
    'PositiveIntegerField': 'integer', 'PositiveSmallIntegerField': 'smallint', 'SlugField': 'varchar',
    'SmallIntegerField': 'smallint', 'TextField': 'text', 'TimeField': 'time', 'UUIDField': 'char(32)',
    'EmailField': 'varchar', 'URLField': 'varchar', 'ImageField': 'varchar',
}


class DatabaseOperations(object):
    __vp_open__ = 'django.db.backends.base.operations'

    def __init__(self, connection):
        self.connection = connection

    def quote_name(self, name):
        return __vp__.quote_name(self.connection.alias, name)

    def max_name_length(self):
        return {'sqlite': None, 'mysql': 64, 'postgresql': 63}[self.connection.vendor]

    def field_cast_sql(self, db_type, internal_type):
        return '%s'

    def lookup_cast(self, lookup_type, internal_type=None):
        return '%s'


class DatabaseFeatures(object):
    __vp_open__ = 'django.db.backends.base.features'
    interprets_empty_strings_as_nulls = False
    supports_transactions = True

    def __init__(self, connection):
        self.connection = connection
        self.can_distinct_on_fields = connection.vendor == 'postgresql'
        self.can_rollback_ddl = connection.vendor != 'mysql'


class DatabaseIntrospection(object):
    __vp_open__ = 'django.db.backends.base.introspection'

    def __init__(self, connection):
        self.connection = connection

    def table_name_converter(self, name):
        return name

    def django_table_names(self, only_existing=False, include_views=True):
        from django.apps import apps
        if only_existing:
            __vp__.unsupported('django_table_names(only_existing=True)')
        tables = []
        for model in apps.get_models(include_auto_created=True):
            if model._meta.managed and model._meta.db_table not in tables:
                tables.append(model._meta.db_table)
        return tables


class Cursor(object):
    __vp_open__ = 'django.db.backends.utils'

    def __init__(self, connection):
        self.connection = connection
        self.vp_last = None

    def execute(self, sql, params=None):
        __vp__.db_fault('execute')
        self.vp_last = __vp__.event('execute', self.connection.alias, sql, params)
        return None

    def executemany(self, sql, param_list):
        __vp__.unsupported('cursor.executemany')

    def fetchall(self):
        return __vp__.rows(self.vp_last)

    def fetchmany(self, n=1):
        return __vp__.rows(self.vp_last)

    def fetchone(self):
        if __vp__.atom('fetchone', self.vp_last):
            return __vp__.term('elem', __vp__.rows(self.vp_last), 1)
        return None

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class DatabaseWrapper(object):
    __vp_open__ = 'django.db.backends.base.base'

    def __init__(self, alias):
        self.alias = alias
        vendor = __vp__.config('backend', 'sqlite')
        self.vendor = vendor
        self.ops = DatabaseOperations(self)
        self.features = DatabaseFeatures(self)
        self.introspection = DatabaseIntrospection(self)
        self.settings_dict = __vp__.settings_dict(alias)
        self.in_atomic_block = False

    def vp_db_type(self, internal):
        return TYPES.get(internal)

    def cursor(self):
        return Cursor(self)

    def commit(self):
        __vp__.note('tx.commit', self.alias)

    def rollback(self):
        __vp__.note('tx.rollback', self.alias)

    def set_autocommit(self, v):
        __vp__.note('tx.autocommit', self.alias, v)

    def close(self):
        __vp__.note('connection.close', self.alias)

    def ensure_connection(self):
        return None


def make_connection(alias):
    return DatabaseWrapper(alias)
