__vp_open__ = 'django.db.migrations'


class Migration(object):
    __vp_open__ = 'django.db.migrations.migration'
    operations = []
    dependencies = []
    run_before = []
    replaces = []
    initial = None
    atomic = True


class Operation(object):
    def __init__(self, *args, **kwargs):
        self.vp_args = args
        self.vp_kwargs = kwargs
        for k, v in kwargs.items():
            setattr(self, k, v)


class CreateModel(Operation):
    def __init__(self, name, fields, options=None, bases=None, managers=None):
        self.name = name
        self.fields = fields
        self.options = options or {}
        self.bases = bases
        self.managers = managers


class AddField(Operation):
    def __init__(self, model_name, name, field, preserve_default=True):
        self.model_name = model_name
        self.name = name
        self.field = field


class AlterField(AddField):
    pass


class RemoveField(Operation):
    def __init__(self, model_name, name):
        self.model_name = model_name
        self.name = name


class RenameField(Operation):
    def __init__(self, model_name, old_name, new_name):
        self.model_name, self.old_name, self.new_name = model_name, old_name, new_name


class AlterModelOptions(Operation):
    def __init__(self, name, options):
        self.name, self.options = name, options


class AlterModelTable(Operation):
    def __init__(self, name, table):
        self.name, self.table = name, table


class AlterUniqueTogether(Operation):
    def __init__(self, name, unique_together):
        self.name, self.unique_together = name, unique_together


class AlterIndexTogether(Operation):
    def __init__(self, name, index_together):
        self.name, self.index_together = name, index_together


class AddIndex(Operation):
    def __init__(self, model_name, index):
        self.model_name, self.index = model_name, index


class DeleteModel(Operation):
    def __init__(self, name):
        self.name = name


class RenameModel(Operation):
    def __init__(self, old_name, new_name):
        self.old_name, self.new_name = old_name, new_name


class RunPython(Operation):
    def __init__(self, code, reverse_code=None, atomic=None, hints=None, elidable=False):
        self.code = code


class RunSQL(Operation):
    def __init__(self, sql, reverse_sql=None, state_operations=None, hints=None, elidable=False):
        self.sql = sql


class SeparateDatabaseAndState(Operation):
    def __init__(self, database_operations=None, state_operations=None):
        self.database_operations = database_operations or []
        self.state_operations = state_operations or []
