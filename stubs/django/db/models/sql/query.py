import __vp__
from django.core.exceptions import FieldError
from django.db.models.constants import LOOKUP_SEP
from django.db.models.query_utils import Q
from django.db.models.sql.where import AND, OR, ExtraWhere, Lookup, WhereNode
__vp_open__ = 'django.db.models.sql.query'

OPS = {'exact': '=', 'gt': '>', 'gte': '>=', 'lt': '<', 'lte': '<='}


class Query(object):
    __vp_open__ = 'django.db.models.sql.query'

    def __init__(self, model, where=WhereNode):
        self.model = model
        self.where_class = where
        self.where = where()
        self.alias_map = {}
        self.table_map = {}
        self.extra_select = {}

    def get_initial_alias(self):
        return self.model._meta.db_table

    def get_meta(self):
        return self.model._meta

    def clone(self):
        __vp__.unsupported('Query.clone')

    def add_q(self, q_object):
        clause = self._add_q(q_object, False)
        if clause:
            self.where.add(clause, AND)

    def _add_q(self, q_object, current_negated):
        current_negated = current_negated != q_object.negated
        target = self.where_class(connector=q_object.connector, negated=q_object.negated)
        for child in q_object.children:
            if isinstance(child, Q):
                sub = self._add_q(child, current_negated)
            else:
                sub = self.build_filter(child, current_negated)
            if sub:
                target.add(sub, q_object.connector)
        return target

    def build_filter(self, filter_expr, current_negated=False):
        arg, value = filter_expr
        parts = arg.split(LOOKUP_SEP)
        meta = self.get_meta()
        name = meta.pk.name if parts[0] == 'pk' else parts[0]
        try:
            field = meta.get_field(name)
        except Exception:
            raise FieldError("Cannot resolve keyword '%s' into field." % name)
        lookup = 'exact'
        if len(parts) == 2:
            lookup = parts[1]
        elif len(parts) > 2:
            __vp__.unsupported('filter across a relation')
        if not getattr(field, 'column', None):
            __vp__.unsupported('filter on a field without a column')
        alias = self.get_initial_alias()
        if lookup == 'exact' and value is None:
            lookup = 'isnull'
            value = True
        if lookup == 'isnull' or lookup == 'in':
            cond = Lookup(alias, field, lookup, value)
        elif lookup in OPS:
            cond = Lookup(alias, field, OPS[lookup], value)
        else:
            __vp__.unsupported('lookup')
        clause = self.where_class()
        clause.add(cond, AND)
        if current_negated and lookup != 'isnull' and field.null:
            clause.add(Lookup(alias, field, 'isnull', False), AND)
        return clause

    def add_extra(self, select, select_params, where, params, tables, order_by):
        if where or params:
            self.where.add(ExtraWhere(where, params), AND)

    def clear_ordering(self, force_empty):
        return None

    def add_count_column(self):
        __vp__.unsupported('Query.add_count_column')

    def add_fields(self, *a, **k):
        __vp__.unsupported('Query.add_fields')

    def get_compiler(self, using=None, connection=None):
        from django.db import connections
        from django.db.models.sql.compiler import SQLCompiler
        return SQLCompiler(self, connection or connections[using], using)
