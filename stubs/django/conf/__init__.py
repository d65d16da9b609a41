import __vp__
__vp_open__ = 'django.conf'


class LazySettings(object):
    def __getattr__(self, name):
        return __vp__.setting(name)


settings = LazySettings()
