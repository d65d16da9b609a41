__vp_open__ = 'django.db.models.sql.datastructures'


class Join(object):
    def __init__(self, table_name, parent_alias, table_alias, join_type, join_field, nullable, filtered_relation=None):
        self.table_name = table_name
        self.parent_alias = parent_alias
        self.table_alias = table_alias
        self.join_type = join_type
        self.join_cols = join_field.get_joining_columns()
        self.join_field = join_field
        self.nullable = nullable


class BaseTable(object):
    join_type = None
    parent_alias = None

    def __init__(self, table_name, alias):
        self.table_name = table_name
        self.table_alias = alias


class EmptyResultSet(Exception):
    pass
