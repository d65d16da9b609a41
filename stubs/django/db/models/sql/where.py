__vp_open__ = 'django.db.models.sql.where'
AND = 'AND'
OR = 'OR'


class WhereNode(object):
    __vp_open__ = 'django.db.models.sql.where'
    default = AND
    resolved = False

    def __init__(self, children=None, connector=None, negated=False):
        self.children = list(children) if children else []
        self.connector = connector or self.default
        self.negated = negated

    def __bool__(self):
        return bool(self.children)

    def add(self, data, conn_type):
        if self.connector == conn_type:
            if (isinstance(data, WhereNode) and not data.negated and
                    (data.connector == conn_type or len(data.children) == 1)):
                self.children.extend(data.children)
            else:
                self.children.append(data)
        else:
            old = WhereNode(self.children, self.connector, self.negated)
            self.connector = conn_type
            self.children = [old, data]

    def as_sql(self, compiler, connection):
        result = []
        result_params = []
        for child in self.children:
            sql, params = compiler.compile(child)
            if sql:
                result.append(sql)
                result_params.extend(params)
        conn = ' %s ' % self.connector
        sql_string = conn.join(result)
        if sql_string:
            if self.negated:
                sql_string = 'NOT (%s)' % sql_string
            elif len(result) > 1:
                sql_string = '(%s)' % sql_string
        return sql_string, result_params


class Lookup(object):
    def __init__(self, alias, field, op, value):
        self.alias, self.field, self.op, self.value = alias, field, op, value

    def as_sql(self, compiler, connection):
        qn = compiler.quote_name_unless_alias
        lhs = '%s.%s' % (qn(self.alias), qn(self.field.column))
        if self.op == 'isnull':
            return ('%s IS NULL' % lhs if self.value else '%s IS NOT NULL' % lhs), []
        if self.op == 'in':
            vals = list(self.value)
            return '%s IN (%s)' % (lhs, ', '.join(['%s'] * len(vals))), vals
        return '%s %s %%s' % (lhs, self.op), [self.value]


class ExtraWhere(object):
    def __init__(self, sqls, params):
        self.sqls = sqls
        self.params = params

    def as_sql(self, compiler=None, connection=None):
        return ' AND '.join(['(%s)' % s for s in self.sqls]), list(self.params or ())
