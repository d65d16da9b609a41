__vp_open__ = 'six'
PY2 = False
PY3 = True
PY34 = True
string_types = (str,)
integer_types = (int,)
class_types = (type,)
text_type = str
binary_type = bytes


def with_metaclass(meta, *bases):
    return meta('temporary_class', bases or (object,), {'__module__': 'six'})


def iteritems(d, **kw):
    return iter(d.items(**kw))


def iterkeys(d, **kw):
    return iter(d.keys(**kw))


def itervalues(d, **kw):
    return iter(d.values(**kw))


def u(s):
    return s


def b(s):
    return s.encode('latin-1')


def ensure_text(s, encoding='utf-8', errors='strict'):
    return s


ensure_str = ensure_text


def python_2_unicode_compatible(cls):
    return cls
