__vp_open__ = 'django.utils.encoding'


def force_text(s, encoding='utf-8', strings_only=False, errors='strict'):
    return str(s)


smart_text = force_text
force_str = force_text
smart_str = force_text


def python_2_unicode_compatible(cls):
    return cls
