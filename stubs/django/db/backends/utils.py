import __vp__
__vp_open__ = 'django.db.backends.utils'


def truncate_name(identifier, length=None, hash_len=4):
    if length is None:
        return identifier
    if not __vp__.isterm(identifier) and len(identifier) <= length:
        return identifier
    return __vp__.term('strop', 'truncate', identifier, length)


def strip_quotes(table_name):
    return table_name
