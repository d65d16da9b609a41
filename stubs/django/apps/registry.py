from functools import partial
from django.core.exceptions import AppRegistryNotReady
__vp_open__ = 'django.apps.registry'


class Apps(object):
    __vp_open__ = 'django.apps.registry'

    def __init__(self):
        self.vp_models = []
        self.apps_ready = True
        self.models_ready = False
        self.ready = False
        self._pending = []

    def check_models_ready(self):
        if not self.models_ready:
            raise AppRegistryNotReady("Models aren't loaded yet.")

    def check_apps_ready(self):
        return None

    def get_models(self, include_auto_created=False, include_swapped=False):
        self.check_models_ready()
        out = []
        for m in self.vp_models:
            if m._meta.auto_created and not include_auto_created:
                continue
            if m._meta.swapped and not include_swapped:
                continue
            out.append(m)
        return out

    def get_model(self, app_label, model_name=None, require_ready=True):
        if require_ready:
            self.check_models_ready()
        if model_name is None:
            app_label, model_name = app_label.split('.')
        m = self._lookup((app_label, model_name.lower()))
        if m is None:
            raise LookupError("App '%s' doesn't have a '%s' model." % (app_label, model_name))
        return m

    def _lookup(self, key):
        for m in self.vp_models:
            if (m._meta.app_label, m._meta.model_name) == key:
                return m
        return None

    def get_registered_model(self, app_label, model_name):
        m = self._lookup((app_label, model_name.lower()))
        if m is None:
            raise LookupError("Model '%s.%s' not registered." % (app_label, model_name))
        return m

    def register_model(self, app_label, model):
        self.vp_models.append(model)
        self.do_pending_operations(model)

    def get_containing_app_config(self, object_name):
        return None

    def get_app_config(self, label):
        import __vp__
        __vp__.unsupported('apps.get_app_config')

    def is_installed(self, name):
        import __vp__
        return __vp__.atom('installed', (name,))

    def get_swappable_settings_name(self, to_string):
        for model in self.get_models(include_swapped=True):
            swapped = model._meta.swapped
            if swapped and swapped == to_string:
                return model._meta.swappable
            if to_string == model._meta.label and model._meta.swappable:
                return model._meta.swappable
        return None

    def clear_cache(self):
        return None

    def lazy_model_operation(self, function, *model_keys):
        if not model_keys:
            function()
        else:
            next_model, more_models = model_keys[0], model_keys[1:]

            def apply_next_model(model):
                next_function = partial(function, model)
                self.lazy_model_operation(next_function, *more_models)
            try:
                model_class = self.get_registered_model(*next_model)
            except LookupError:
                self._pending.append((next_model, apply_next_model))
            else:
                apply_next_model(model_class)

    def do_pending_operations(self, model):
        key = (model._meta.app_label, model._meta.model_name)
        mine = [f for k, f in self._pending if k == key]
        self._pending = [x for x in self._pending if x[0] != key]
        for f in mine:
            f(model)


apps = Apps()
