from .registry import apps


class AppConfig(object):
    __vp_open__ = 'django.apps.config'

    def __init__(self, app_name='', app_module=None):
        self.name = app_name
        self.label = app_name.rpartition('.')[2]
