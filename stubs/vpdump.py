"""Lists the tables of all loaded models (analysed together with a model set)."""
from django.apps import apps
from django.db import connection


def schema():
    out = []
    for m in apps.vp_models:
        o = m._meta
        if o.abstract:
            continue
        cols = []
        for f in o.local_fields:
            if f.column is not None:
                cols.append((f.attname, f.column, f.db_type(connection), f.primary_key, f.name))
        out.append((o.label, o.db_table, tuple(cols), bool(o.proxy)))
    return tuple(out)
