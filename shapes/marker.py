"""The marker table as the model and as the migrations describe it."""
import importlib
from django.apps import apps
from denorm.models import DirtyInstance


def describe(name, f):
    remote = None
    if f.remote_field:
        remote = f.remote_field.model
        if not isinstance(remote, str):
            remote = '%s.%s' % (remote._meta.app_label, remote._meta.object_name)
    relation = remote is not None
    return (name, (
        ('type', f.get_internal_type()), ('column', f.db_column or (name + '_id' if relation else name)), ('null', f.null), ('unique', f.unique),
        ('pk', f.primary_key), ('max_length', f.max_length), ('to', remote), ('db_index', f.db_index),
        ('constraint', f.db_constraint if relation else None), ('unique_for', f.unique_for_date or f.unique_for_month or f.unique_for_year)))


def groups(together):
    out = []
    for u in together or ():
        if isinstance(u, str):
            return (tuple(together),)
        out.append(tuple(u))
    return tuple(out)


def table():
    o = DirtyInstance._meta
    return (o.db_table, groups(o.unique_together), bool(o.managed), bool(o.proxy), bool(o.swappable),
            tuple(describe(f.name, f) for f in o.local_fields), tuple(f.name for f in o.local_many_to_many), len(o.parents), len(o.indexes))


def operation(op):
    kind = type(op).__name__
    if kind == 'CreateModel':
        return (kind, op.name, tuple(describe(n, f) for n, f in op.fields), groups(op.options.get('unique_together')), op.options.get('db_table'))
    if kind in ('AddField', 'AlterField'):
        return (kind, op.model_name, describe(op.name, op.field))
    if kind == 'RemoveField':
        return (kind, op.model_name, op.name)
    if kind == 'RenameField':
        return (kind, op.model_name, op.old_name, op.new_name)
    if kind == 'AlterUniqueTogether':
        return (kind, op.name, groups(op.unique_together))
    if kind == 'AlterModelTable':
        return (kind, op.name, op.table)
    if kind == 'DeleteModel':
        return (kind, op.name)
    if kind in ('AlterModelOptions', 'AlterIndexTogether', 'AddIndex'):
        return (kind,)
    return ('unknown', kind)


def migration(name):
    m = importlib.import_module('denorm.migrations.' + name).Migration
    return (tuple(tuple(d) for d in m.dependencies), tuple(operation(op) for op in m.operations))


apps.models_ready = True
