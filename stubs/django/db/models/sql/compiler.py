__vp_open__ = 'django.db.models.sql.compiler'


class SQLCompiler(object):
    __vp_open__ = 'django.db.models.sql.compiler'

    def __init__(self, query, connection, using):
        self.query = query
        self.connection = connection
        self.using = using

    def quote_name_unless_alias(self, name):
        import __vp__
        if __vp__.isterm(name):
            # names of declared tables and columns are taken to differ from aliases
            return self.connection.ops.quote_name(name)
        if name in self.query.alias_map and name not in self.query.table_map:
            return name
        return self.connection.ops.quote_name(name)

    def __call__(self, name):
        return self.quote_name_unless_alias(name)

    def compile(self, node, select_format=False):
        return node.as_sql(self, self.connection)

    def as_sql(self, with_limits=True, with_col_aliases=False):
        import __vp__
        __vp__.unsupported('SQLCompiler.as_sql')
